//! Walks programs through the typed accessors and records what they say, for Accessors.tla.
use parsa_python::{PyNode, parse};
use parsa_python_cst::*;
use serde_json::{Value, json};
use std::io::Write;

/// The nodes in pre-order, with their parent (p) and children (k), counted from 1.
fn walk(n: PyNode, p: usize, out: &mut Vec<Value>) -> usize {
    let x = if n.is_leaf() { n.as_code() } else { "" };
    // The characters of a number, and of the prefix of a string.
    let c: Vec<String> = match n.type_str().as_str() {
        "Number" => x.chars().map(String::from).collect(),
        "String" => x.chars().take_while(|c| !"'\"".contains(*c)).map(String::from).collect(),
        _ => vec![],
    };
    out.push(json!({"t": n.type_str(), "p": p, "s": n.start(), "e": n.end(), "x": x, "c": c}));
    let me = out.len();
    let k: Vec<usize> = match n.is_leaf() {
        true => vec![],
        false => n.iter_children().map(|c| walk(c, me, out)).collect(),
    };
    out[me - 1]["k"] = json!(k);
    me
}

/// What the accessors say, in the order in which they say it.
#[derive(Default)]
struct Said(Vec<String>, Vec<Value>);

impl Said {
    fn h(&mut self, tag: &str, index: u32) {
        self.0.push(format!("{tag}:{}", index + 1));
    }

    fn w(&mut self, word: &str) {
        self.0.push(word.into());
    }

    fn end(&mut self) {
        self.w(".");
    }

    fn opt<T>(&mut self, label: &str, o: Option<T>, f: impl FnOnce(&mut Self, T)) {
        match o {
            Some(x) => {
                self.w(label);
                f(self, x)
            }
            None => self.w(&format!("no {label}")),
        }
    }

    fn name(&mut self, n: Name) {
        self.h("Name", n.index());
    }

    fn def(&mut self, n: NameDef) {
        assert_eq!(n.name().index(), n.name_index());
        self.h("def", n.name().index());
    }

    // ------------------------------------------------ statements
    fn block(&mut self, b: Block) {
        self.h("block", b.index());
        self.stmts(b.iter_stmt_likes());
    }

    fn else_(&mut self, e: Option<ElseBlock>) {
        self.opt("else", e, |s, e| s.block(e.block()));
    }

    fn stmts(&mut self, it: StmtLikeIterator) {
        for s in it {
            self.stmt(s.node);
        }
        self.end();
    }

    fn stmt(&mut self, s: StmtLikeContent) {
        use StmtLikeContent::*;
        match s {
            Assignment(a) => self.assignment(a),
            StarExpressions(e) => self.stars(e),
            ReturnStmt(r) => {
                self.h("return_stmt", r.index());
                self.opt("value", r.star_expressions(), |s, e| s.stars(e));
            }
            YieldExpr(y) => self.yield_(y),
            RaiseStmt(r) => {
                self.h("raise_stmt", r.index());
                self.opt("exception", r.unpack(), |s, (e, cause)| {
                    s.expr(e);
                    s.opt("cause", cause, |s, e| s.expr(e));
                });
            }
            ImportFrom(i) => {
                self.h("import_from", i.index());
                let (level, module) = i.level_with_dotted_name();
                self.w(&format!("level {level}"));
                self.opt("module", module, |s, m| s.dotted(m));
                match i.unpack_targets() {
                    ImportFromTargets::Star(k) => self.h("*", k.index()),
                    ImportFromTargets::Iterator(it) => {
                        for t in it {
                            self.h("import_from_as_name", t.index());
                            let (n, d) = t.unpack();
                            assert_eq!(d.index(), t.name_def().index());
                            assert_eq!(t.import_from().unwrap().index(), i.index());
                            self.name(n);
                            self.def(d);
                        }
                    }
                }
                self.end();
            }
            ImportName(i) => {
                self.h("import_name", i.index());
                for t in i.iter_dotted_as_names() {
                    self.h("dotted_as_name", t.index());
                    assert_eq!(t.import().index(), i.index());
                    match t.unpack() {
                        DottedAsNameContent::Simple(d, rest) => {
                            assert_eq!(d.index(), t.name_def().index());
                            self.def(d);
                            self.opt("module", rest, |s, m| s.dotted(m));
                        }
                        DottedAsNameContent::WithAs(m, d) => {
                            assert_eq!(d.index(), t.name_def().index());
                            self.dotted(m);
                            self.w("as");
                            self.def(d);
                        }
                    }
                }
                self.end();
            }
            PassStmt(p) => self.h("pass_stmt", p.index()),
            GlobalStmt(g) => {
                self.h("global_stmt", g.index());
                g.iter_name_defs().for_each(|n| self.def(n));
                self.end();
            }
            NonlocalStmt(n) => self.h("nonlocal_stmt", n.index()),
            AssertStmt(a) => {
                self.h("assert_stmt", a.index());
                let (e, m) = a.unpack();
                self.expr(e);
                self.opt("message", m, |s, e| s.expr(e));
            }
            BreakStmt(b) => self.h("break_stmt", b.index()),
            ContinueStmt(c) => self.h("continue_stmt", c.index()),
            DelStmt(d) => {
                self.h("del_stmt", d.index());
                self.del(d.targets());
            }
            TypeAlias(t) => {
                self.h("type_alias", t.index());
                let (n, p, e) = t.unpack();
                assert_eq!(n.index(), t.name_def().index());
                self.def(n);
                self.opt("type_params", p, |s, p| s.type_params(p));
                self.expr(e);
            }
            FunctionDef(f) => self.function(f),
            ClassDef(c) => self.class(c),
            Decorated(d) => {
                self.h("decorated", d.index());
                let mut indexes = vec![];
                for x in d.decorators().iter() {
                    self.h("decorator", x.index());
                    indexes.push(x.index());
                    self.named(x.named_expression());
                }
                let mut back: Vec<_> = d.decorators().iter_reverse().map(|x| x.index()).collect();
                back.reverse();
                assert_eq!(indexes, back);
                self.end();
                match d.decoratee() {
                    Decoratee::ClassDef(c) => {
                        assert_eq!(c.maybe_decorated().unwrap().index(), d.index());
                        self.class(c)
                    }
                    Decoratee::FunctionDef(f) => {
                        assert_eq!(f.maybe_decorated().unwrap().index(), d.index());
                        self.function(f)
                    }
                    Decoratee::AsyncFunctionDef(f) => {
                        assert_eq!(f.maybe_decorated().unwrap().index(), d.index());
                        self.w("async");
                        self.function(f)
                    }
                }
            }
            AsyncStmt(a) => {
                self.w("async");
                match a.unpack() {
                    AsyncStmtContent::FunctionDef(f) => self.function(f),
                    AsyncStmtContent::ForStmt(f) => self.for_(f),
                    AsyncStmtContent::WithStmt(w) => self.with(w),
                }
            }
            IfStmt(i) => {
                self.h("if_stmt", i.index());
                for b in i.iter_blocks() {
                    let first = b.first_leaf_index();
                    match b {
                        IfBlockType::If(c, b) => {
                            self.h("if", first);
                            self.named(c);
                            self.block(b);
                        }
                        IfBlockType::Else(e) => {
                            self.h("else", first);
                            self.block(e.block());
                        }
                    }
                }
                self.end();
            }
            WhileStmt(w) => {
                self.h("while_stmt", w.index());
                let (c, b, e) = w.unpack();
                self.named(c);
                self.block(b);
                self.else_(e);
            }
            ForStmt(f) => self.for_(f),
            TryStmt(t) => {
                self.h("try_stmt", t.index());
                for b in t.iter_blocks() {
                    match b {
                        TryBlockType::Try(b) => {
                            self.w("try");
                            self.block(b)
                        }
                        TryBlockType::Except(e) => {
                            self.h("except_block", e.index());
                            let (x, b) = e.unpack();
                            self.opt("exception", x, |s, x| s.except(x));
                            self.block(b)
                        }
                        TryBlockType::ExceptStar(e) => {
                            self.h("except_star_block", e.index());
                            let (x, b) = e.unpack();
                            self.except(x);
                            self.block(b)
                        }
                        TryBlockType::Else(e) => {
                            self.w("else");
                            self.block(e.block())
                        }
                        TryBlockType::Finally(f) => {
                            self.w("finally");
                            self.block(f.block())
                        }
                    }
                }
                self.end();
            }
            WithStmt(w) => self.with(w),
            MatchStmt(m) => {
                self.h("match_stmt", m.index());
                let (subject, cases) = m.unpack();
                match subject.unpack() {
                    SubjectExprContent::NamedExpression(n) => self.named(n),
                    SubjectExprContent::Tuple(it) => self.likes("Tuple", it),
                }
                for c in cases {
                    self.h("case_block", c.index());
                    let (p, guard, b) = c.unpack();
                    let (n, a) = p.maybe_simple_name_assignments();
                    self.opt("simple", n, |s, d| s.def(d));
                    self.opt("simple as", a, |s, d| s.def(d));
                    match p {
                        CasePattern::Pattern(p) => self.pattern(p),
                        CasePattern::OpenSequencePattern(o) => {
                            self.w("open");
                            self.sequence(o.iter())
                        }
                    }
                    self.opt("guard", guard, |s, g| s.named(g.named_expr()));
                    self.block(b);
                }
                self.end();
            }
            Error(e) => self.h("error", e.index()),
            BrokenScope(b) => self.h("broken_scope", b.index()),
            Newline => self.w("Newline"),
        }
    }

    fn dotted(&mut self, m: DottedImportName) {
        match m.unpack() {
            DottedImportNameContent::DottedName(first, n) => {
                self.dotted(first);
                self.name(n)
            }
            DottedImportNameContent::Name(n) => self.name(n),
        }
    }

    fn except(&mut self, x: ExceptExpression) {
        match x.unpack() {
            ExceptExpressionContent::WithNameDef(e, d) => {
                self.expr(e);
                self.w("as");
                self.def(d)
            }
            ExceptExpressionContent::Expressions(es) => {
                es.iter().for_each(|e| self.expr(e));
                self.end();
            }
        }
    }

    fn for_(&mut self, f: ForStmt) {
        self.h("for_stmt", f.index());
        let (t, e, b, els) = f.unpack();
        self.target(t.as_target());
        self.stars(e);
        self.block(b);
        self.else_(els);
    }

    fn with(&mut self, w: WithStmt) {
        self.h("with_stmt", w.index());
        let (items, b) = w.unpack();
        for i in items.iter() {
            self.h("with_item", i.index());
            self.w(if i.in_async_with_stmt() { "in async" } else { "in sync" });
            let (e, t) = i.unpack();
            self.expr(e);
            self.opt("as", t, |s, t| s.target(t));
        }
        self.end();
        self.block(b);
    }

    fn scope(&mut self, s: Scope) {
        match s {
            Scope::Module => self.w("in module"),
            Scope::Class(c) => self.h("in class_def", c.index()),
            Scope::Function(f) => self.h("in function_def", f.index()),
            Scope::Lambda(l) => self.h("in lambda", l.index()),
        }
    }

    fn function(&mut self, f: FunctionDef) {
        self.h("function_def", f.index());
        let (n, tp, params, ret, b) = f.unpack();
        assert_eq!(n.index(), f.name_def().index());
        assert_eq!(n.name().index(), f.name().index());
        assert_eq!(tp.map(|t| t.index()), f.type_params().map(|t| t.index()));
        assert_eq!(params.index(), f.params().index());
        assert_eq!(ret.map(|r| r.index()), f.return_annotation().map(|r| r.index()));
        assert_eq!(b.index(), f.body().index());
        self.scope(f.parent_scope());
        self.w(match f.parent() {
            FunctionParent::Decorated(_) => "Decorated",
            FunctionParent::Async => "Async",
            FunctionParent::DecoratedAsync(_) => "DecoratedAsync",
            FunctionParent::Normal => "Normal",
        });
        self.w(if f.parent().is_async() { "is async" } else { "is sync" });
        self.w(if f.is_typed() { "typed" } else { "untyped" });
        self.w(if f.in_conditional_scope() { "conditional" } else { "always" });
        self.def(n);
        self.opt("type_params", tp, |s, t| s.type_params(t));
        self.params(params.iter());
        self.opt("returns", ret, |s, r| s.expr(r.expression()));
        self.h("colon", f.colon_index());
        self.w(&format!("colon ends {}", f.end_position_of_colon()));
        self.opt("doc", f.docstring(), |s, d| s.h("strings", d.index()));
        match f.trivial_body_state() {
            TrivialBodyState::Known(k) => self.w(if k { "trivial" } else { "not trivial" }),
            TrivialBodyState::RaiseExpr(e) => self.h("raises", e.index()),
        }
        let mut defs = vec![];
        f.on_name_def_in_scope(&mut |d| defs.push(d.name().index()));
        let defs: Vec<u32> = defs.iter().map(|d| d + 1).collect();
        self.1.push(json!({"f": f.index() + 1, "got": defs}));
        self.block(b);
    }

    fn params(&mut self, it: ParamIterator) {
        for p in it {
            self.w(match p.kind() {
                ParamKind::PositionalOnly => "PositionalOnly",
                ParamKind::PositionalOrKeyword => "PositionalOrKeyword",
                ParamKind::Star => "Star",
                ParamKind::KeywordOnly => "KeywordOnly",
                ParamKind::StarStar => "StarStar",
            });
            self.def(p.name_def());
            self.opt("annotation", p.annotation(), |s, a| {
                s.h("", a.index());
                match a.maybe_starred() {
                    Ok(e) => {
                        s.w("starred");
                        s.part(e.expression_part())
                    }
                    Err(e) => s.expr(e),
                }
            });
            self.opt("default", p.default(), |s, e| s.expr(e));
        }
        self.end();
    }

    fn type_params(&mut self, t: TypeParams) {
        for p in t.iter() {
            self.h("type_param", p.index());
            let (d, kind) = p.unpack();
            assert_eq!(d.index(), p.name_def().index());
            self.def(d);
            match kind {
                TypeParamKind::TypeVar(b, d) => {
                    self.w("TypeVar");
                    self.opt("bound", b, |s, b| s.expr(b.expression()));
                    self.opt("default", d, |s, b| s.expr(b.expression()));
                }
                TypeParamKind::TypeVarTuple(d) => {
                    self.w("TypeVarTuple");
                    self.opt("default", d, |s, d| match d.unpack() {
                        StarAnnotationContent::Expression(e) => s.expr(e),
                        StarAnnotationContent::StarExpression(e) => {
                            s.w("starred");
                            s.part(e.expression_part())
                        }
                    });
                }
                TypeParamKind::ParamSpec(d) => {
                    self.w("ParamSpec");
                    self.opt("default", d, |s, b| s.expr(b.expression()));
                }
            }
        }
        self.end();
    }

    fn class(&mut self, c: ClassDef) {
        self.h("class_def", c.index());
        let (tp, args, b) = c.unpack();
        assert_eq!(c.name().index(), c.name_def().name().index());
        assert_eq!(tp.map(|t| t.index()), c.type_params().map(|t| t.index()));
        assert_eq!(args.map(|t| t.index()), c.arguments().map(|t| t.index()));
        assert_eq!(b.index(), c.block().index());
        self.scope(c.parent_scope());
        self.def(c.name_def());
        self.opt("type_params", tp, |s, t| s.type_params(t));
        self.opt("bases", args, |s, a| s.args(a.iter()));
        match c.closing_and_opening_parentheses() {
            Some(r) => self.w(&format!("parentheses {} {}", r.start, r.end)),
            None => self.w("no parentheses"),
        }
        self.opt("doc", c.docstring(), |s, d| s.h("strings", d.index()));
        for (a, b) in c.search_potential_self_assignments() {
            self.h("self", a.index());
            self.name(b);
        }
        self.block(b);
    }

    fn assignment(&mut self, a: Assignment) {
        self.h("assignment", a.index());
        let right = a.right_side().map(|r| r.index());
        match a.unpack() {
            AssignmentContent::Normal(targets, r) => {
                assert_eq!(right, Some(r.index()));
                assert!(a.maybe_annotation().is_none());
                targets.for_each(|t| self.target(t));
                self.w("=");
                self.right(r);
            }
            AssignmentContent::WithAnnotation(t, annotation, r) => {
                assert_eq!(right, r.as_ref().map(|r| r.index()));
                assert_eq!(a.maybe_annotation().unwrap().index(), annotation.index());
                self.target(t);
                self.w("annotation");
                self.opt("of", annotation.maybe_assignment_name(), |s, d| s.def(d));
                self.expr(annotation.expression());
                self.opt("=", r, |s, r| s.right(r));
            }
            AssignmentContent::AugAssign(t, op, r) => {
                assert_eq!(right, Some(r.index()));
                self.target(t);
                let (i, infos) = op.magic_methods();
                self.w(&format!("{}= {i} {} {} {}", op.operand(), infos.operand, infos.magic_method, infos.reverse_magic_method));
                self.right(r);
            }
        }
    }

    fn right(&mut self, r: AssignmentRightSide) {
        match r {
            AssignmentRightSide::YieldExpr(y) => self.yield_(y),
            AssignmentRightSide::StarExpressions(e) => self.stars(e),
        }
    }

    fn target(&mut self, t: Target) {
        match t {
            Target::Tuple(it) => {
                self.w("targets");
                it.for_each(|t| self.target(t));
                self.end();
            }
            Target::Name(d) => self.def(d),
            Target::NameExpression(p, d) => {
                self.w("attribute");
                self.t_primary(p);
                self.def(d);
            }
            Target::IndexExpression(p) => {
                self.w("index");
                self.t_primary(p);
            }
            Target::Starred(t) => {
                self.h("star_target", t.index());
                self.target(t.as_target());
            }
        }
    }

    fn t_primary(&mut self, p: PrimaryTarget) {
        self.h("t_primary", p.index());
        match p.first() {
            PrimaryTargetOrAtom::PrimaryTarget(p) => self.t_primary(p),
            PrimaryTargetOrAtom::Atom(a) => self.atom(a),
        }
        self.second(p.second());
    }

    fn del(&mut self, ts: DelTargets) {
        for t in ts.iter() {
            match t {
                DelTarget::Target(t) => self.target(t),
                DelTarget::DelTargets(ts) => {
                    self.w("group");
                    self.del(ts)
                }
            }
        }
        self.end();
    }

    // ------------------------------------------------ expressions
    fn stars(&mut self, e: StarExpressions) {
        self.h("star_expressions", e.index());
        match e.unpack() {
            StarExpressionContent::Expression(e) => self.expr(e),
            StarExpressionContent::StarExpression(e) => {
                self.w("starred");
                self.part(e.expression_part())
            }
            StarExpressionContent::Tuple(t) => {
                self.w("Tuple");
                t.iter().for_each(|e| self.like(e));
                self.end();
            }
        }
    }

    fn like(&mut self, e: StarLikeExpression) {
        match e {
            StarLikeExpression::Expression(e) => self.expr(e),
            StarLikeExpression::NamedExpression(e) => self.named(e),
            StarLikeExpression::StarExpression(e) => {
                self.w("starred");
                self.part(e.expression_part())
            }
            StarLikeExpression::StarNamedExpression(e) => {
                self.w("starred");
                self.part(e.expression_part())
            }
        }
    }

    fn likes<'x>(&mut self, what: &str, it: impl Iterator<Item = StarLikeExpression<'x>>) {
        self.w(what);
        it.for_each(|e| self.like(e));
        self.end();
    }

    fn named(&mut self, n: NamedExpression) {
        let index = n.expression().index();
        match n.unpack() {
            NamedExpressionContent::Expression(e) => {
                assert_eq!(e.index(), index);
                self.expr(e)
            }
            NamedExpressionContent::Walrus(w) => {
                self.h("walrus", w.index());
                let (d, e) = w.unpack();
                assert_eq!(d.index(), w.name_def().index());
                assert_eq!(e.index(), w.expression().index());
                assert_eq!(e.index(), index);
                self.def(d);
                self.expr(e)
            }
        }
    }

    fn expr(&mut self, e: Expression) {
        self.h("expression", e.index());
        assert_eq!(e.is_lambda(), matches!(e.unpack(), ExpressionContent::Lambda(_)));
        match e.unpack() {
            ExpressionContent::ExpressionPart(p) => self.part(p),
            ExpressionContent::Ternary(t) => {
                self.h("ternary", t.index());
                let (a, c, b) = t.unpack();
                self.part(a);
                self.part(c);
                self.expr(b);
            }
            ExpressionContent::Lambda(l) => {
                self.h("lambda", l.index());
                let (p, e) = l.unpack();
                assert_eq!(p.clone().count(), l.params().count());
                self.scope(l.parent_scope());
                self.params(p);
                self.expr(e);
            }
        }
    }

    fn operation(&mut self, tag: &str, o: Operation) {
        self.h(tag, o.index);
        self.w(&format!("{} {} {}", o.infos.operand, o.infos.magic_method, o.infos.reverse_magic_method));
        self.part(o.left);
        self.part(o.right);
    }

    fn part(&mut self, p: ExpressionPart) {
        use ExpressionPart::*;
        match p {
            Atom(a) => self.atom(a),
            Primary(p) => self.primary(p),
            AwaitPrimary(a) => {
                self.h("await_primary", a.index());
                self.part(a.primary())
            }
            Power(x) => self.operation("power", x.as_operation()),
            Factor(f) => {
                self.h("factor", f.index());
                let (op, e) = f.unpack();
                self.w(op.as_str());
                self.part(e)
            }
            Term(x) => self.operation("term", x.as_operation()),
            Sum(x) => self.operation("sum", x.as_operation()),
            ShiftExpr(x) => self.operation("shift_expr", x.as_operation()),
            BitwiseAnd(x) => self.operation("bitwise_and", x.as_operation()),
            BitwiseXor(x) => self.operation("bitwise_xor", x.as_operation()),
            BitwiseOr(x) => {
                let (l, r) = x.unpack();
                let o = x.as_operation();
                assert_eq!((l.index(), r.index()), (o.left.index(), o.right.index()));
                self.operation("bitwise_or", o)
            }
            Comparisons(c) => {
                self.h("comparison", c.index());
                for (i, x) in c.iter().enumerate() {
                    use ComparisonContent::*;
                    if i == 0 {
                        self.part(x.left());
                    }
                    match x {
                        Equals(..) => self.w("=="),
                        NotEquals(..) => self.w("!="),
                        Is(..) => self.w("is"),
                        IsNot(..) => self.w("is not"),
                        In(..) => self.w("in"),
                        NotIn(..) => self.w("not in"),
                        Ordering(o) => self.w(&format!("{} {} {}", o.infos.operand, o.infos.magic_method, o.infos.reverse_magic_method)),
                    }
                    self.h("left", x.left().index());
                    self.part(x.right());
                }
                self.end();
            }
            Inversion(n) => {
                self.h("inversion", n.index());
                self.part(n.expression())
            }
            Conjunction(c) => {
                self.h("conjunction", c.index());
                let (l, r) = c.unpack();
                self.part(l);
                self.part(r)
            }
            Disjunction(c) => {
                self.h("disjunction", c.index());
                let (l, r) = c.unpack();
                self.part(l);
                self.part(r)
            }
        }
    }

    fn primary(&mut self, p: Primary) {
        self.h("primary", p.index());
        match p.first() {
            PrimaryOrAtom::Primary(p) => self.primary(p),
            PrimaryOrAtom::Atom(a) => self.atom(a),
        }
        self.second(p.second());
    }

    fn second(&mut self, c: PrimaryContent) {
        match c {
            PrimaryContent::Attribute(n) => {
                self.w("attribute");
                self.name(n)
            }
            PrimaryContent::Execution(a) => {
                self.w("call");
                for x in a.iter() {
                    match x {
                        ArgOrComprehension::Arg(a) => self.arg(a),
                        ArgOrComprehension::Comprehension(c) => self.comprehension(c),
                    }
                }
                self.end();
                self.opt("single", a.maybe_single_positional(), |s, n| s.h("", n.index()));
            }
            PrimaryContent::GetItem(g) => {
                self.w("item");
                match g {
                    SliceType::Slices(x) => {
                        self.w("slices");
                        for x in x.iter() {
                            match x {
                                SliceContent::Slice(x) => self.slice(x),
                                SliceContent::NamedExpression(n) => self.named(n),
                                SliceContent::StarredExpression(e) => {
                                    self.w("starred");
                                    self.expr(e.expression())
                                }
                            }
                        }
                        self.end();
                    }
                    SliceType::Slice(x) => self.slice(x),
                    SliceType::NamedExpression(n) => self.named(n),
                    SliceType::StarredExpression(e) => {
                        self.w("starred");
                        self.expr(e.expression())
                    }
                }
            }
        }
    }

    fn slice(&mut self, x: Slice) {
        self.h("slice", x.index());
        let (a, b, c) = x.unpack();
        self.opt("from", a, |s, e| s.expr(e));
        self.opt("to", b, |s, e| s.expr(e));
        self.opt("step", c, |s, e| s.expr(e));
    }

    fn args<'x>(&mut self, it: impl Iterator<Item = Argument<'x>>) {
        it.for_each(|a| self.arg(a));
        self.end();
    }

    fn arg(&mut self, a: Argument) {
        match a {
            Argument::Positional(n) => self.named(n),
            Argument::Keyword(k) => {
                self.h("kwarg", k.index());
                let (n, e) = k.unpack();
                self.name(n);
                self.expr(e)
            }
            Argument::Star(e) => {
                self.w("*");
                self.expr(e.expression())
            }
            Argument::StarStar(e) => {
                self.w("**");
                self.expr(e.expression())
            }
        }
    }

    fn yield_(&mut self, y: YieldExpr) {
        self.h("yield_expr", y.index());
        match y.unpack() {
            YieldExprContent::StarExpressions(e) => self.stars(e),
            YieldExprContent::YieldFrom(y) => {
                self.w("from");
                self.expr(y.expression())
            }
            YieldExprContent::None => self.w("nothing"),
        }
    }

    fn clauses(&mut self, c: ForIfClauses) {
        for x in c.iter() {
            let x = match x {
                ForIfClause::Async(x) => {
                    self.w("async");
                    x
                }
                ForIfClause::Sync(x) => x,
            };
            self.h("sync_for_if_clause", x.index());
            let (t, e, ifs) = x.unpack();
            self.target(t.as_target());
            self.part(e);
            for i in ifs {
                self.h("comp_if", i.index());
                self.part(i.expression_part());
            }
        }
        self.end();
    }

    fn comprehension(&mut self, c: Comprehension) {
        self.h("comprehension", c.index());
        self.w(if c.is_generator() { "generator" } else { "collection" });
        let (e, f) = c.unpack();
        self.w(if e.has_await() { "awaits" } else { "no await" });
        self.named(e);
        self.clauses(f);
    }

    fn strings(&mut self, s: Strings) {
        self.h("strings", s.index());
        self.opt("single", s.maybe_single_string_literal(), |s, l| s.h("", l.index()));
        for x in s.iter() {
            match x {
                StringType::String(l) => self.h("String", l.index()),
                StringType::TemplateString(l) => self.h("Template", l.index()),
                StringType::FString(f) => {
                    self.h("fstring", f.index());
                    self.content(f.iter_content());
                }
            }
        }
        self.end();
    }

    fn content<'x>(&mut self, it: impl Iterator<Item = FStringContent<'x>>) {
        for c in it {
            match c {
                FStringContent::FStringString(s) => self.h("FStringString", s.index()),
                FStringContent::FStringExpr(e) => {
                    self.h("fstring_expr", e.index());
                    let (es, spec) = e.unpack();
                    es.iter().for_each(|e| self.expr(e));
                    self.end();
                    let spec = spec.map(|s| (s.index(), s.iter_content().collect::<Vec<_>>()));
                    match spec {
                        Some((i, c)) => {
                            self.h("spec", i);
                            // Without a generic that contains itself.
                            let it: Box<dyn Iterator<Item = FStringContent<'_>>> = Box::new(c.into_iter());
                            self.content_dyn(it);
                        }
                        None => self.w("no spec"),
                    }
                }
            }
        }
        self.end();
    }

    fn content_dyn<'x>(&mut self, it: Box<dyn Iterator<Item = FStringContent<'x>> + 'x>) {
        self.content(it)
    }

    fn atom(&mut self, a: Atom) {
        self.h("atom", a.index());
        use AtomContent::*;
        match a.unpack() {
            Name(n) => self.name(n),
            Float(n) => self.h("Float", n.index()),
            Int(n) => self.h("Int", n.index()),
            Complex(n) => self.h("Complex", n.index()),
            Strings(s) => self.strings(s),
            Bytes(b) => {
                self.h("bytes", b.index());
                self.opt("single", b.maybe_single_bytes_literal(), |s, l| s.h("", l.index()));
            }
            NoneLiteral => self.w("None"),
            Bool(k) => self.h(k.as_str(), k.index()),
            Ellipsis => self.w("..."),
            List(l) => self.likes("List", l.unpack()),
            ListComprehension(c) => {
                self.w("ListComprehension");
                self.comprehension(c)
            }
            Dict(d) => {
                self.w("Dict");
                for e in d.iter_elements() {
                    match e {
                        DictElement::KeyValue(kv) => {
                            self.h("dict_key_value", kv.index());
                            self.expr(kv.key());
                            self.expr(kv.value());
                        }
                        DictElement::Star(e) => {
                            self.h("dict_starred", e.index());
                            self.part(e.expression_part());
                        }
                    }
                }
                self.end();
            }
            DictComprehension(c) => {
                self.h("dict_comprehension", c.index());
                let (kv, f) = c.unpack();
                self.expr(kv.key());
                self.expr(kv.value());
                self.clauses(f);
            }
            Set(x) => self.likes("Set", x.unpack()),
            SetComprehension(c) => {
                self.w("SetComprehension");
                self.comprehension(c)
            }
            Tuple(t) => self.likes("Tuple", t.iter()),
            GeneratorComprehension(c) => {
                self.w("GeneratorComprehension");
                self.comprehension(c)
            }
            YieldExpr(y) => self.yield_(y),
            NamedExpression(n) => self.named(n),
        }
    }

    // ------------------------------------------------ patterns
    fn pattern(&mut self, p: Pattern) {
        self.h("pattern", p.index());
        let (k, a) = p.unpack();
        self.kind(k);
        self.opt("as", a, |s, d| s.def(d));
    }

    fn pattern_name(&mut self, d: DottedPatternName) {
        match d.unpack() {
            DottedPatternNameContent::DottedName(first, n) => {
                self.pattern_name(first);
                self.name(n)
            }
            DottedPatternNameContent::Name(n) => self.name(n),
        }
    }

    fn kind(&mut self, k: PatternKind) {
        use PatternKind::*;
        match k {
            NameDef(d) => self.def(d),
            WildcardPattern(w) => self.h("wildcard_pattern", w.index()),
            DottedName(d) => {
                self.h("dotted_pattern_name", d.index());
                assert_eq!(d.first_name().start(), d.start());
                self.pattern_name(d)
            }
            ClassPattern(c) => {
                self.h("class_pattern", c.index());
                let (d, params) = c.unpack();
                self.pattern_name(d);
                for p in params {
                    match p {
                        ParamPattern::Positional(p) => self.pattern(p),
                        ParamPattern::Keyword(k) => {
                            self.h("keyword_pattern", k.index());
                            let (n, p) = k.unpack();
                            self.name(n);
                            self.pattern(p);
                        }
                    }
                }
                self.end();
            }
            LiteralPattern(l) => self.literal(l),
            GroupPattern(g) => {
                self.h("group_pattern", g.index());
                self.pattern(g.inner())
            }
            OrPattern(o) => {
                self.h("or_pattern", o.index());
                o.iter().for_each(|k| self.kind(k));
                self.end();
            }
            SequencePattern(s) => {
                self.h("sequence_pattern", s.index());
                self.sequence(s.iter())
            }
            MappingPattern(m) => {
                self.h("mapping_pattern", m.index());
                for i in m.iter() {
                    match i {
                        MappingPatternItem::Entry(kv) => {
                            self.h("key_value_pattern", kv.index());
                            let (k, p) = kv.unpack();
                            match k {
                                KeyEntryInPattern::LiteralPattern(l) => self.literal(l),
                                KeyEntryInPattern::DottedName(d) => self.pattern_name(d),
                            }
                            self.pattern(p);
                        }
                        MappingPatternItem::Rest(r) => {
                            self.w("**");
                            self.def(r.name_def())
                        }
                    }
                }
                self.end();
            }
        }
    }

    fn literal(&mut self, l: LiteralPattern) {
        self.h("literal_pattern", l.index());
        match l.unpack() {
            LiteralPatternContent::Strings(s) => self.strings(s),
            LiteralPatternContent::Bytes(b) => self.h("bytes", b.index()),
            LiteralPatternContent::SignedNumber(n) => {
                let (n, minus) = n.number_and_is_negated();
                self.w(if minus { "-" } else { "+" });
                match n {
                    UnpackedNumber::Int(n) => self.h("Int", n.index()),
                    UnpackedNumber::Float(n) => self.h("Float", n.index()),
                    UnpackedNumber::Complex(n) => self.h("Complex", n.index()),
                }
            }
            LiteralPatternContent::ComplexNumber(c) => self.h("complex_number", c.index()),
            LiteralPatternContent::None => self.w("None"),
            LiteralPatternContent::Bool(b) => self.w(if b { "True" } else { "False" }),
        }
    }

    fn sequence<'x>(&mut self, it: impl Iterator<Item = SequencePatternItem<'x>>) {
        for i in it {
            match i {
                SequencePatternItem::Entry(p) => self.pattern(p),
                SequencePatternItem::Rest(r) => {
                    self.h("star_pattern", r.index());
                    match r.unpack() {
                        StarPatternContent::NameDef(d) => self.def(d),
                        StarPatternContent::WildcardPattern(w) => self.h("wildcard_pattern", w.index()),
                    }
                }
            }
        }
        self.end();
    }

    // ------------------------------------------------ names
    fn about(&mut self, tree: &Tree, n: Name) {
        self.name(n);
        let parent = match n.parent() {
            NameParent::NameDef(_) => "name_def",
            NameParent::Atom(_) => "atom",
            NameParent::Primary(_) => "primary",
            NameParent::PrimaryTarget(_) => "t_primary",
            NameParent::Kwarg(_) => "kwarg",
            NameParent::KeywordPattern(_) => "keyword_pattern",
            NameParent::ImportFromAsName(_) => "import_from_as_name",
            NameParent::DottedImportName(_) => "dotted_import_name",
            NameParent::DottedPatternName(_) => "dotted_pattern_name",
            NameParent::FStringConversion(_) => "fstring_conversion",
            NameParent::Error => "error",
        };
        self.w(parent);
        self.w(if n.is_reference() { "reference" } else { "definition" });
        self.scope(n.parent_scope());
        self.scope(tree.node_parent_scope(n.index()));
        if let Some(d) = n.name_def() {
            use DefiningStmt::*;
            let s = d.expect_defining_stmt();
            let kind = match s {
                FunctionDef(_) => "function_def",
                ClassDef(_) => "class_def",
                Assignment(_) => "assignment",
                ImportName(_) => "import_name",
                ImportFromAsName(_) => "import_from_as_name",
                Lambda(_) => "lambda",
                Comprehension(_) => "comprehension",
                DictComprehension(_) => "dict_comprehension",
                Walrus(_) => "walrus",
                TryStmt(_) => "try_stmt",
                ForStmt(_) => "for_stmt",
                WithItem(_) => "with_item",
                DelStmt(_) => "del_stmt",
                MatchStmt(_) => "match_stmt",
                TypeAlias(_) => "type_alias",
                GlobalStmt(_) => "global_stmt",
                NonlocalStmt(_) => "nonlocal_stmt",
                Error(_) => "error",
            };
            self.h(kind, s.index());
            self.w(match d.parent() {
                NameDefParent::Primary => "part of t_primary",
                NameDefParent::GlobalStmt => "part of global_stmt",
                NameDefParent::NonlocalStmt => "part of nonlocal_stmt",
                NameDefParent::Other => "part of other",
            });
            self.opt("assigned", d.maybe_assignment_definition(), |s, a| s.h("", a.index()));
            self.opt("imported", d.maybe_import(), |s, i| match i {
                NameImportParent::ImportFromAsName(i) => s.h("import_from_as_name", i.index()),
                NameImportParent::DottedAsName(i) => s.h("dotted_as_name", i.index()),
            });
            self.opt("function", d.maybe_name_of_func(), |s, f| s.h("", f.index()));
            self.opt("class", d.maybe_name_of_class(), |s, f| s.h("", f.index()));
            self.opt("param of", d.maybe_parent_function_of_param(), |s, f| s.h("", f.index()));
        }
    }
}

/// `accessors TEXTS k n OUT MAX`
pub fn main(args: &[String]) {
    let (k, n): (usize, usize) = (args[1].parse().unwrap(), args[2].parse().unwrap());
    let max: usize = args[4].parse().unwrap();
    let mut f = std::fs::File::create(format!("{}.accessors", args[3])).unwrap();
    let mut done = 0;
    for (i, v) in crate::lines(&args[0]).enumerate() {
        if i % n != k {
            continue;
        }
        println!("{}", json!({"begin": i}));
        let text = crate::tree::text(&v);
        let tree = Tree::parse(text.clone().into());
        if tree.length() > max {
            continue;
        }
        let mut nodes = vec![];
        walk(parse(text.into()).root_node(), 0, &mut nodes);
        if nodes.iter().any(|n| n["t"].as_str().unwrap().starts_with("Error")) {
            continue;
        }
        let r = crate::guarded(|| {
            let (mut said, mut names) = (Said::default(), Said::default());
            said.stmts(tree.root().iter_stmt_likes());
            tree.filter_all_names(None).for_each(|n| names.about(&tree, n));
            (said.0, names.0, said.1)
        });
        match r {
            Ok((said, names, locals)) => {
                done += 1;
                writeln!(f, "{}", json!({"i": i, "nodes": nodes, "said": said, "names": names, "locals": locals})).unwrap();
            }
            Err(e) => {
                println!("{}", json!({"mismatch": i, "detail": {"why": {"what": "panic", "want": "a description", "got": e, "at": crate::PLACE.with(|p| p.borrow().clone())}}}));
            }
        }
    }
    println!("{}", json!({"done": done}));
}
