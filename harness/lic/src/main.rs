//! Drives the real licence code with the behaviours of License.tla.
use ed25519_dalek::SigningKey;
use serde_json::{Value, json};
use std::io::BufRead;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

fn private(key: u64) -> [u8; 32] {
    let mut k = [7; 32];
    k[0] = key as u8;
    k
}

fn public(key: u64) -> [u8; 32] {
    SigningKey::from_bytes(&private(key)).verifying_key().to_bytes()
}

fn text(v: &Value) -> String {
    v.as_array().unwrap().iter().map(|c| c.as_str().unwrap()).collect()
}

fn licence(v: &Value, base: u64, signature: &str) -> Value {
    let number = |i: usize| base + text(&v[i]).parse::<u64>().unwrap();
    json!({"name": text(&v[0]), "email": text(&v[1]), "company": text(&v[2]), "valid_from": number(3),
           "valid_until": number(4), "license_version": text(&v[5]).parse::<u64>().unwrap(),
           "level": v[6], "signature": signature})
}

fn signature_of(licence: &Value, key: u64) -> String {
    let signed = licensing::verif::sign(&licence.to_string(), &private(key)).unwrap();
    let signed: Value = serde_json::from_str(&signed).unwrap();
    let mut all = signed.clone();
    all["signature"] = json!("");
    assert_eq!(&all, licence, "signing changes nothing else");
    signed["signature"].as_str().unwrap().into()
}

fn bytes(hex: &str) -> Vec<u8> {
    (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn hex(bytes: &[u8]) -> String {
    bytes.iter().map(|b| format!("{b:02X}")).collect()
}

/// The order of the group: a signature may not be accepted with it added.
const ORDER: [u8; 32] = [
    0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10,
];

fn damaged(how: &str, own: &str, licence: &Value, key: u64, i: usize) -> String {
    let mut b = bytes(own);
    match how {
        "own" => return own.into(),
        "flipped" => {
            let bit = i * 7 + 3;
            b[bit / 8 % 64] ^= 1 << (bit % 8)
        }
        "cut" => b.truncate(63 - i % 63),
        "empty" => b.clear(),
        "malleated" => {
            let mut carry = 0;
            for j in 0..32 {
                let x = b[32 + j] as u16 + ORDER[j] as u16 + carry;
                b[32 + j] = x as u8;
                carry = x >> 8;
            }
        }
        "long" => b.push(0),
        "not hex" => return format!("{}é{}", &own[..i % 100], &own[i % 100 + 2..]),
        "of another licence" => {
            let mut other = licence.clone();
            other["company"] = json!(format!("{}z", other["company"].as_str().unwrap()));
            return signature_of(&other, key);
        }
        "swapped halves" => b.rotate_left(32),
        _ => unreachable!(),
    }
    hex(&b)
}

fn run(v: &Value, i: usize, base: u64, nanos: u32) -> (String, Value) {
    let key = v["signed"]["key"].as_u64().unwrap();
    let signed = licence(&v["signed"]["lic"], base, "");
    let own = signature_of(&signed, key);
    let sig = damaged(v["sig"].as_str().unwrap(), &own, &signed, key, i);
    let mut json = licence(&v["lic"], base, &sig);
    if i % 3 == 0 {
        json["added"] = json!("not part of a licence");
    }
    let trusted: Vec<_> = v["trusted"].as_array().unwrap().iter().map(|k| public(k.as_u64().unwrap())).collect();
    let now = UNIX_EPOCH + Duration::new(base + v["now"].as_u64().unwrap(), nanos);
    let got = match licensing::verif::verify(&json.to_string(), now, &trusted) {
        Ok(true) => "valid".to_string(),
        Ok(false) => "rejected".into(),
        Err(e) => {
            let e = e.to_string();
            if e.contains("not yet") {
                "not yet".into()
            } else if e.contains("expired") {
                "expired".into()
            } else {
                "rejected".into()
            }
        }
    };
    (got, json)
}

fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<&str>().map(|s| s.to_string()).or(e.downcast_ref::<String>().cloned()).unwrap_or("panic".into())
    })
}

fn mismatch(i: usize, what: String, want: Value, got: Value) {
    println!("{}", json!({"mismatch": i, "detail": {"why": {"what": what, "want": want, "got": got}}}));
}

/// `replay FILE k n`: verdicts. `unseen` ones are listed apart.
fn replay(args: &[String]) {
    let (k, n): (usize, usize) = (args[1].parse().unwrap(), args[2].parse().unwrap());
    let f = std::io::BufReader::new(std::fs::File::open(&args[0]).unwrap());
    let (mut done, mut unseen) = (0, 0);
    for (i, l) in f.lines().enumerate() {
        if i % n != k {
            continue;
        }
        let v: Value = serde_json::from_str(&l.unwrap()).unwrap();
        println!("{}", json!({"begin": i}));
        // Moved to other times when no digits are moved between fields.
        let bases: &[u64] = if v["lic"] == v["signed"]["lic"] { &[0, 1_700_000_000, 1 << 40, (1 << 63) - 100] } else { &[0] };
        for &base in bases {
            done += 1;
            match guarded(|| run(&v, i, base, [0, 1, 999_999_999][i % 3])) {
                Ok((got, json)) if json!(got) != v["verdict"] => {
                    if v["unseen"] == json!(true) {
                        unseen += 1;
                    } else {
                        mismatch(i, format!("verdict of {json} at {} (+{base})", v["now"]), v["verdict"].clone(), json!(got));
                    }
                }
                Ok(_) => (),
                Err(e) => mismatch(i, "panic".into(), v["verdict"].clone(), json!(e)),
            }
        }
    }
    println!("{}", json!({"done": done, "unseen": unseen}));
}

/// `texts FILE`: each line a file that is no licence of a trusted key.
fn texts(args: &[String]) {
    let dir = std::env::temp_dir().join(format!("lic-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let path = dir.join("license.json");
    let f = std::io::BufReader::new(std::fs::File::open(&args[0]).unwrap());
    let mut done = 0;
    for (i, l) in f.lines().enumerate() {
        let v: Value = serde_json::from_str(&l.unwrap()).unwrap();
        println!("{}", json!({"begin": i}));
        done += 1;
        let text = v["text"].as_str().unwrap();
        match v["key"].as_bool() {
            // A key: how many bytes, or none.
            Some(_) => {
                let got = guarded(|| licensing::hex_string_key_to_bytes(text.into()).map(|b| b.to_vec()).ok());
                let got = got.map_or_else(|e| json!({ "panic": e }), |b| json!(b));
                if got != v["want"] {
                    mismatch(i, format!("key {text:?}"), v["want"].clone(), got);
                }
            }
            None => {
                std::fs::write(&path, text).unwrap();
                match guarded(|| licensing::verify_license_in_path(&path).is_ok()) {
                    Ok(false) => (),
                    Ok(true) => mismatch(i, format!("licence {text}"), json!("rejected"), json!("valid")),
                    Err(e) => mismatch(i, format!("licence {text}"), json!("rejected"), json!(e)),
                }
            }
        }
    }
    std::fs::remove_file(&path).ok();
    if guarded(|| licensing::verify_license_in_path(&path).is_ok()) != Ok(false) {
        mismatch(0, "licence that is not there".into(), json!("rejected"), json!("valid or panic"));
    }
    std::fs::remove_dir_all(&dir).ok();
    println!("{}", json!({"done": done}));
}

fn unix(t: SystemTime) -> u64 {
    t.duration_since(UNIX_EPOCH).unwrap().as_secs()
}

/// `days FILE`: licences for a number of days.
fn days(args: &[String]) {
    let key: Vec<_> = private(1).iter().map(|b| format!("{b:x}")).collect();
    // No other thread runs.
    unsafe { std::env::set_var("ZUBAN_SIGNING_KEY", key.join(":")) };
    let f = std::io::BufReader::new(std::fs::File::open(&args[0]).unwrap());
    let mut done = 0;
    for (i, l) in f.lines().enumerate() {
        let v: Value = serde_json::from_str(&l.unwrap()).unwrap();
        println!("{}", json!({"begin": i}));
        done += 1;
        let days: u64 = v["days"].as_str().unwrap().parse().unwrap();
        let seconds = days as u128 * 86400;
        let before = unix(SystemTime::now());
        let r = guarded(|| licensing::create_license("Ä".into(), "b@c".into(), "".into(), days).map_err(|e| e.to_string()));
        let after = unix(SystemTime::now());
        match r {
            Err(e) => mismatch(i, format!("{days} days"), json!("a licence or an error"), json!({ "panic": e })),
            // Only what no clock can show may be refused.
            Ok(Err(e)) => {
                if seconds + (after as u128) < 1 << 62 {
                    mismatch(i, format!("{days} days"), json!("a licence"), json!(e));
                }
            }
            Ok(Ok(json)) => {
                let l: Value = serde_json::from_str(&json).unwrap();
                let (from, until) = (l["valid_from"].as_u64().unwrap(), l["valid_until"].as_u64().unwrap());
                let ok = (before..=after).contains(&from) && from as u128 + seconds == until as u128;
                if !ok || l["name"] != "Ä" || l["email"] != "b@c" || l["company"] != "" || l["level"] != "Standard" {
                    mismatch(i, format!("{days} days"), json!([before, seconds]), l.clone());
                }
                let at = |t: u64| {
                    let now = UNIX_EPOCH + Duration::from_secs(t);
                    licensing::verif::verify(&json, now, &[public(2), public(1)]).map_err(|e| e.to_string())
                };
                let got = [at(from - 1).is_ok(), at(from) == Ok(true), at(until) == Ok(true), at(until + 1).is_ok()];
                if got != [false, true, true, false] {
                    mismatch(i, format!("{days} days, verified at the borders"), json!([false, true, true, false]), json!(got));
                }
            }
        }
    }
    println!("{}", json!({"done": done}));
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    match args[1].as_str() {
        "replay" => replay(&args[2..]),
        "texts" => texts(&args[2..]),
        "days" => days(&args[2..]),
        _ => std::process::exit(2),
    }
}
