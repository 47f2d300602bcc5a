------------------------------ MODULE PyGrammar ------------------------------
(* The grammar of Python 3.13, as the structure a user of zuban's syntax tree
   relies on: which node every construct becomes, and in which order its parts
   stand below it.  Written as data: Rules[n] is the body of the node n, Hidden
   are the nodes that disappear when they have a single child.

   The rules follow the full grammar specification of the Python reference
   manual; where the manual needs lookahead to make a sentence belong to one
   rule only (parenthesised with-items, tuples in case clauses, keyword
   arguments after unpacking), the rules below are spelled out so that every
   sentence has exactly one derivation. *)
EXTENDS Naturals, Sequences

N(x) == <<"n", x>>            \* a node
T(x) == <<"t", x>>            \* a token class
K(x) == <<"k", x>>            \* a keyword or operator
K0(x) == <<"k0", x>>          \* ... with no blank before it
S(x) == <<"seq", x>>
A(x) == <<"alt", x>>
O(x) == <<"opt", x>>
M(x) == <<"star", x>>
P(x) == <<"plus", x>>
Sep(s, x) == <<"sep", s, x>>
Nd(n, x) == <<"nd", n, x>>    \* the node n, with this body here
FStr(x) == <<"fstr", x>>      \* the start and the end of an f-string around x
\* A sequence pattern without brackets has a comma.
Tuple2 == S(<<A(<<N("star_pattern"), N("pattern")>>), K(","),
              O(S(<<Sep(K(","), A(<<N("star_pattern"), N("pattern")>>)), O(K(","))>>))>>)
\* A name pattern with a dot is a value, one without is a capture.
Dotted2 == Nd("dotted_pattern_name", S(<<N("dotted_pattern_name"), K("."), T("Name")>>))

\* Where a parenthesis after "with" does not close in front of the colon (nor
\* before a comma or "as"), it belongs to the first item and not to the list.
PlainAtom == Nd("atom", A(<<T("Name"), T("Number"), N("strings"), S(<<K("["), K("]")>>)>>))
PlainItem == Nd("with_item", S(<<
    Nd("expression", A(<<PlainAtom, N("lambda"),
        Nd("primary", S(<<PlainAtom, K("("), O(A(<<N("arguments"), N("comprehension")>>)), K(")")>>)),
        Nd("primary", S(<<PlainAtom, K("."), T("Name")>>)),
        Nd("sum", S(<<PlainAtom, K("+"), N("term")>>)),
        Nd("inversion", S(<<K("not"), N("inversion")>>)),
        Nd("ternary", S(<<PlainAtom, K("if"), N("disjunction"), K("else"), N("expression")>>))>>)),
    O(S(<<K("as"), N("star_target")>>))>>))
ParenAtom == Nd("atom", S(<<K("("), A(<<N("tuple_content"), N("yield_expr"), N("named_expression"),
                                      N("comprehension")>>), K(")")>>))
ParenAs == Nd("with_item", S(<<Nd("expression", ParenAtom), K("as"), N("star_target")>>))
ParenItem == Nd("with_item", S(<<
    Nd("expression", A(<<Nd("primary", S(<<ParenAtom, K("."), T("Name")>>)),
                         Nd("atom", S(<<K("("), N("yield_expr"), K(")")>>)),
                         Nd("atom", S(<<K("("), K(")")>>)),
                         Nd("atom", S(<<K("("), N("comprehension"), K(")")>>)),
                         Nd("bitwise_or", S(<<ParenAtom, K("|"), N("bitwise_xor")>>))>>)),
    O(S(<<K("as"), N("star_target")>>))>>))
\* A starred target in parentheses has a comma.
ParenTargets == A(<<A(<<N("name_def"), N("t_primary"), N("star_target_brackets")>>),
                    S(<<N("star_target"), K(","),
                        O(S(<<Sep(K(","), N("star_target")), O(K(","))>>))>>)>>)
\* An expression that a colon ends, as in the fields of an f-string.
FieldExpr == Nd("expression", A(<<N("disjunction"), N("disjunction"),
    Nd("ternary", S(<<N("disjunction"), K("if"), N("disjunction"), K("else"),
                      Nd("expression", N("disjunction"))>>))>>))

Hidden == {"or_pattern", "pattern_capture_target", "ternary", "star_named_expression", "disjunction", "conjunction", "inversion", "comparison", "bitwise_or", "bitwise_xor", "bitwise_and", "shift_expr", "sum", "term", "factor", "power", "await_primary", "primary", "slices", "async_for_if_clause", "star_target", "t_primary", "t_inner"}

\* Different bodies for the same node, and what the node is called in the tree.
NodeName(n) == IF n = "t_inner" THEN "t_primary"
               ELSE IF n = "field_exprs" THEN "expressions" ELSE n

Rules == [
  file |-> S(<<M(N("stmt")), T("Endmarker")>>),
  stmt |-> A(<<N("simple_stmts"), N("if_stmt"), N("while_stmt"), N("for_stmt"), N("try_stmt"),
      N("with_stmt"), N("function_def"), N("class_def"), N("decorated"), N("async_stmt"),
      N("match_stmt")>>),
  simple_stmts |-> S(<<N("simple_stmt"), M(S(<<K(";"), N("simple_stmt")>>)), O(K(";")),
      T("Newline")>>),
  simple_stmt |-> A(<<N("assignment"), N("type_alias"), N("star_expressions"), N("del_stmt"),
      N("pass_stmt"), N("import_name"), N("import_from"), N("global_stmt"), N("nonlocal_stmt"),
      N("assert_stmt"), N("break_stmt"), N("continue_stmt"), N("return_stmt"), N("raise_stmt"),
      N("yield_expr")>>),
  async_stmt |-> S(<<K("async"), A(<<N("function_def"), N("with_stmt"), N("for_stmt")>>)>>),
  assignment |-> A(<<S(<<P(S(<<N("star_targets"), K("=")>>)), A(<<N("yield_expr"),
      N("star_expressions")>>)>>), S(<<N("single_target"), N("annotation"), O(S(<<K("="),
      A(<<N("yield_expr"), N("star_expressions")>>)>>))>>), S(<<N("single_target"),
      N("augassign"), A(<<N("yield_expr"), N("star_expressions")>>)>>)>>),
  augassign |-> A(<<K("+="), K("-="), K("*="), K("@="), K("/="), K("%="), K("&="), K("|="),
      K("^="), K("<<="), K(">>="), K("**="), K("//=")>>),
  return_stmt |-> S(<<K("return"), O(N("star_expressions"))>>),
  raise_stmt |-> S(<<K("raise"), O(S(<<N("expression"), O(S(<<K("from"),
      N("expression")>>))>>))>>),
  global_stmt |-> S(<<K("global"), Sep(K(","), N("name_def"))>>),
  nonlocal_stmt |-> S(<<K("nonlocal"), Sep(K(","), N("name_def"))>>),
  del_stmt |-> S(<<K("del"), N("del_targets")>>),
  assert_stmt |-> S(<<K("assert"), N("expression"), O(S(<<K(","), N("expression")>>))>>),
  pass_stmt |-> K("pass"),
  break_stmt |-> K("break"),
  continue_stmt |-> K("continue"),
  import_name |-> S(<<K("import"), N("dotted_as_names")>>),
  import_from |-> A(<<S(<<K("from"), M(A(<<K("."), K("...")>>)), N("dotted_import_name"),
      K("import"), N("import_from_targets")>>), S(<<K("from"), P(A(<<K("."), K("...")>>)),
      K("import"), N("import_from_targets")>>)>>),
  import_from_targets |-> A(<<K("*"), S(<<K("("), Sep(K(","), N("import_from_as_name")),
      O(K(",")), K(")")>>), Sep(K(","), N("import_from_as_name"))>>),
  import_from_as_name |-> A(<<S(<<T("Name"), K("as"), N("name_def")>>), N("name_def")>>),
  dotted_as_names |-> Sep(K(","), N("dotted_as_name")),
  dotted_as_name |-> A(<<S(<<N("dotted_import_name"), K("as"), N("name_def")>>),
      S(<<N("name_def"), O(S(<<K("."), N("dotted_import_name")>>))>>)>>),
  dotted_import_name |-> S(<<O(S(<<N("dotted_import_name"), K(".")>>)), T("Name")>>),
  block |-> A(<<N("simple_stmts"), S(<<T("Newline"), T("Indent"), P(N("stmt")),
      T("Dedent")>>)>>),
  decorators |-> P(N("decorator")),
  decorator |-> S(<<K("@"), N("named_expression"), T("Newline")>>),
  decorated |-> S(<<N("decorators"), A(<<N("class_def"), N("function_def"),
      N("async_function_def")>>)>>),
  class_def |-> S(<<K("class"), N("name_def"), O(N("type_params")), O(S(<<K("("),
      O(N("arguments")), K(")")>>)), K(":"), N("block")>>),
  async_function_def |-> S(<<K("async"), N("function_def")>>),
  function_def |-> S(<<K("def"), N("name_def"), O(N("type_params")),
      N("function_def_parameters"), O(N("return_annotation")), K(":"), N("block")>>),
  return_annotation |-> S(<<K("->"), N("expression")>>),
  function_def_parameters |-> S(<<K("("), O(N("parameters")), K(")")>>),
  parameters |-> A(<<S(<<Sep(K(","), N("param_no_default")), O(S(<<K(","),
      O(N("star_etc"))>>))>>), S(<<Sep(K(","), N("param_no_default")), K(","), K("/"),
      O(S(<<K(","), O(A(<<S(<<Sep(K(","), N("param_no_default")), O(S(<<K(","),
      O(A(<<S(<<Sep(K(","), N("param_with_default")), O(S(<<K(","), O(N("star_etc"))>>))>>),
      O(N("star_etc"))>>))>>))>>), N("star_etc")>>))>>))>>), S(<<Sep(K(","),
      N("param_no_default")), K(","), K("/"), O(S(<<K(","), O(A(<<S(<<Sep(K(","),
      N("param_with_default")), O(S(<<K(","), O(N("star_etc"))>>))>>), N("star_etc")>>))>>))>>),
      S(<<Sep(K(","), N("param_no_default")), K(","), Sep(K(","), N("param_with_default")),
      A(<<O(S(<<K(","), O(N("star_etc"))>>)), S(<<K(","), K("/"), O(S(<<K(","),
      O(A(<<S(<<Sep(K(","), N("param_with_default")), O(S(<<K(","), O(N("star_etc"))>>))>>),
      N("star_etc")>>))>>))>>)>>)>>), S(<<Sep(K(","), N("param_with_default")), K(","), K("/"),
      O(S(<<K(","), O(A(<<S(<<Sep(K(","), N("param_with_default")), O(S(<<K(","),
      O(N("star_etc"))>>))>>), N("star_etc")>>))>>))>>), S(<<Sep(K(","),
      N("param_with_default")), O(S(<<K(","), O(N("star_etc"))>>))>>), N("star_etc")>>),
  star_etc |-> A(<<S(<<N("starred_param"), O(S(<<K(","), Sep(K(","),
      N("param_maybe_default"))>>)), O(S(<<K(","), O(S(<<N("double_starred_param"),
      O(K(","))>>))>>))>>), S(<<K("*"), K(","), Sep(K(","), N("param_maybe_default")),
      O(S(<<K(","), O(S(<<N("double_starred_param"), O(K(","))>>))>>))>>),
      S(<<N("double_starred_param"), O(K(","))>>)>>),
  param_no_default |-> S(<<N("name_def"), O(N("annotation"))>>),
  param_with_default |-> S(<<N("name_def"), O(N("annotation")), K("="), N("expression")>>),
  param_maybe_default |-> S(<<N("name_def"), O(N("annotation")), O(S(<<K("="),
      N("expression")>>))>>),
  starred_param |-> S(<<K("*"), N("name_def"), O(N("star_annotation"))>>),
  double_starred_param |-> S(<<K("**"), N("name_def"), O(N("annotation"))>>),
  annotation |-> S(<<K(":"), N("expression")>>),
  star_annotation |-> S(<<K(":"), A(<<N("star_expression"), N("expression")>>)>>),
  if_stmt |-> S(<<K("if"), N("named_expression"), K(":"), N("block"), M(S(<<K("elif"),
      N("named_expression"), K(":"), N("block")>>)), O(N("else_block"))>>),
  else_block |-> S(<<K("else"), K(":"), N("block")>>),
  while_stmt |-> S(<<K("while"), N("named_expression"), K(":"), N("block"),
      O(N("else_block"))>>),
  for_stmt |-> S(<<K("for"), N("star_targets"), K("in"), N("star_expressions"), K(":"),
      N("block"), O(N("else_block"))>>),
  with_stmt |-> S(<<K("with"), N("with_items"), N("block")>>),
  with_items |-> A(<<S(<<K("("), Sep(K(","), N("with_item")), O(K(",")), K(")"), K(":")>>),
      S(<<A(<<PlainItem, ParenAs, ParenItem>>), M(S(<<K(","), N("with_item")>>)), K(":")>>)>>),
  with_item |-> S(<<N("expression"), O(S(<<K("as"), N("star_target")>>))>>),
  try_stmt |-> S(<<K("try"), K(":"), N("block"), A(<<S(<<A(<<P(N("except_block")),
      P(N("except_star_block"))>>), O(N("else_block")), O(N("finally_block"))>>),
      N("finally_block")>>)>>),
  except_block |-> S(<<K("except"), O(N("except_expression")), K(":"), N("block")>>),
  except_star_block |-> S(<<K("except"), K("*"), N("except_expression"), K(":"), N("block")>>),
  except_expression |-> A(<<N("expressions"), S(<<N("expression"), K("as"), N("name_def")>>)>>),
  finally_block |-> S(<<K("finally"), K(":"), N("block")>>),
  match_stmt |-> S(<<K("match"), N("subject_expr"), K(":"), T("Newline"), T("Indent"),
      P(N("case_block")), T("Dedent")>>),
  subject_expr |-> A(<<N("named_expression"), Nd("star_named_expressions",
      S(<<N("star_named_expression"), K(","), O(S(<<Sep(K(","), N("star_named_expression")),
      O(K(","))>>))>>))>>),
  case_block |-> S(<<K("case"), A(<<N("pattern"), Nd("open_sequence_pattern", Tuple2)>>),
      O(N("guard")), K(":"), N("block")>>),
  guard |-> S(<<K("if"), N("named_expression")>>),
  pattern |-> S(<<N("or_pattern"), O(S(<<K("as"), N("pattern_capture_target")>>))>>),
  or_pattern |-> Sep(K("|"), A(<<N("literal_pattern"), N("class_pattern"),
      N("wildcard_pattern"), N("group_pattern"), N("sequence_pattern"), N("mapping_pattern"),
      N("pattern_capture_target"), Dotted2>>)),
  literal_pattern |-> A(<<N("complex_number"), N("signed_number"), N("strings"), N("bytes"),
      K("None"), K("True"), K("False")>>),
  complex_number |-> S(<<N("signed_number"), A(<<K("+"), K("-")>>), T("Number")>>),
  signed_number |-> S(<<O(K("-")), T("Number")>>),
  pattern_capture_target |-> Nd("name_def", T("CaptureName")),
  wildcard_pattern |-> K("_"),
  group_pattern |-> S(<<K("("), N("pattern"), K(")")>>),
  sequence_pattern |-> A(<<S(<<K("["), O(N("open_sequence_pattern")), K("]")>>), S(<<K("("),
      O(Nd("open_sequence_pattern", Tuple2)), K(")")>>)>>),
  open_sequence_pattern |-> S(<<Sep(K(","), A(<<N("star_pattern"), N("pattern")>>)),
      O(K(","))>>),
  star_pattern |-> S(<<K("*"), A(<<N("pattern_capture_target"), N("wildcard_pattern")>>)>>),
  mapping_pattern |-> A(<<S(<<K("{"), O(N("double_star_pattern")), K("}")>>), S(<<K("{"),
      Sep(K(","), N("key_value_pattern")), O(S(<<K(","), O(N("double_star_pattern"))>>)),
      K("}")>>)>>),
  key_value_pattern |-> S(<<A(<<N("literal_pattern"), Dotted2>>), K(":"), N("pattern")>>),
  double_star_pattern |-> S(<<K("**"), N("pattern_capture_target"), O(K(","))>>),
  class_pattern |-> S(<<N("dotted_pattern_name"), K("("), O(N("param_patterns")), K(")")>>),
  param_patterns |-> A(<<S(<<Sep(K(","), N("pattern")), O(S(<<K(","), Sep(K(","),
      N("keyword_pattern"))>>)), O(K(","))>>), S(<<Sep(K(","), N("keyword_pattern")),
      O(K(","))>>)>>),
  keyword_pattern |-> S(<<T("Name"), K("="), N("pattern")>>),
  dotted_pattern_name |-> A(<<T("CaptureName"), S(<<N("dotted_pattern_name"), K("."),
      T("Name")>>)>>),
  type_alias |-> S(<<K("type"), N("name_def"), O(N("type_params")), K("="), N("expression")>>),
  type_params |-> S(<<K("["), Sep(K(","), N("type_param")), O(K(",")), K("]")>>),
  type_param |-> A(<<S(<<N("name_def"), O(N("type_param_bound")), O(N("type_param_default"))>>),
      S(<<K("*"), N("name_def"), O(N("type_param_starred_default"))>>), S(<<K("**"),
      N("name_def"), O(N("type_param_default"))>>)>>),
  type_param_bound |-> S(<<K(":"), N("expression")>>),
  type_param_default |-> S(<<K("="), N("expression")>>),
  type_param_starred_default |-> S(<<K("="), A(<<N("expression"), N("star_expression")>>)>>),
  expressions |-> S(<<Sep(K(","), N("expression")), O(K(","))>>),
  expression |-> A(<<N("ternary"), N("lambda")>>),
  ternary |-> S(<<N("disjunction"), O(S(<<K("if"), N("disjunction"), K("else"),
      N("expression")>>))>>),
  yield_expr |-> S(<<K("yield"), O(A(<<N("yield_from"), N("star_expressions")>>))>>),
  yield_from |-> S(<<K("from"), N("expression")>>),
  star_expressions |-> S(<<Sep(K(","), A(<<N("expression"), N("star_expression")>>)),
      O(K(","))>>),
  star_expression |-> S(<<K("*"), N("bitwise_or")>>),
  star_named_expressions |-> S(<<Sep(K(","), N("star_named_expression")), O(K(","))>>),
  star_named_expression |-> A(<<S(<<K("*"), N("bitwise_or")>>), N("named_expression")>>),
  named_expression |-> A(<<N("expression"), N("walrus")>>),
  walrus |-> S(<<N("name_def"), K(":="), N("expression")>>),
  disjunction |-> S(<<O(S(<<N("disjunction"), K("or")>>)), N("conjunction")>>),
  conjunction |-> S(<<O(S(<<N("conjunction"), K("and")>>)), N("inversion")>>),
  inversion |-> A(<<S(<<K("not"), N("inversion")>>), N("comparison")>>),
  comparison |-> S(<<N("bitwise_or"), M(S(<<N("comp_op"), N("bitwise_or")>>))>>),
  comp_op |-> A(<<K("<"), K(">"), K("=="), K(">="), K("<="), K("!="), K("in"), S(<<K("not"),
      K("in")>>), K("is"), S(<<K("is"), K("not")>>)>>),
  bitwise_or |-> S(<<O(S(<<N("bitwise_or"), K("|")>>)), N("bitwise_xor")>>),
  bitwise_xor |-> S(<<O(S(<<N("bitwise_xor"), K("^")>>)), N("bitwise_and")>>),
  bitwise_and |-> S(<<O(S(<<N("bitwise_and"), K("&")>>)), N("shift_expr")>>),
  shift_expr |-> S(<<O(S(<<N("shift_expr"), A(<<K("<<"), K(">>")>>)>>)), N("sum")>>),
  sum |-> A(<<S(<<N("sum"), A(<<K("+"), K("-")>>), N("term")>>), N("term")>>),
  term |-> S(<<O(S(<<N("term"), A(<<K("*"), K("@"), K("/"), K("%"), K("//")>>)>>)),
      N("factor")>>),
  factor |-> A(<<S(<<A(<<K("+"), K("-"), K("~")>>), N("factor")>>), N("power")>>),
  power |-> S(<<N("await_primary"), O(S(<<K("**"), N("factor")>>))>>),
  await_primary |-> S(<<O(K("await")), N("primary")>>),
  primary |-> A(<<S(<<N("primary"), K("."), T("Name")>>), S(<<N("primary"), K("("),
      O(A(<<N("arguments"), N("comprehension")>>)), K(")")>>), S(<<N("primary"), K("["),
      N("slices"), K("]")>>), N("atom")>>),
  slices |-> S(<<Sep(K(","), A(<<N("named_expression"), N("slice"), N("starred_expression")>>)),
      O(K(","))>>),
  slice |-> S(<<O(N("expression")), K(":"), O(N("expression")), O(S(<<K(":"),
      O(N("expression"))>>))>>),
  atom |-> A(<<S(<<K("("), O(A(<<N("tuple_content"), N("yield_expr"), N("named_expression"),
      N("comprehension")>>)), K(")")>>), S(<<K("["), O(A(<<N("star_named_expressions"),
      N("comprehension")>>)), K("]")>>), S(<<K("{"), O(A(<<N("dict_content"),
      N("star_named_expressions"), N("dict_comprehension"), N("comprehension")>>)), K("}")>>),
      T("Name"), T("Number"), N("strings"), N("bytes"), K("..."), K("None"), K("True"),
      K("False")>>),
  lambda |-> S(<<K("lambda"), O(N("lambda_parameters")), K(":"), N("expression")>>),
  lambda_parameters |-> A(<<S(<<Sep(K(","), N("lambda_param_no_default")), O(S(<<K(","),
      O(N("lambda_star_etc"))>>))>>), S(<<Sep(K(","), N("lambda_param_no_default")), K(","),
      K("/"), O(S(<<K(","), O(A(<<S(<<Sep(K(","), N("lambda_param_no_default")), O(S(<<K(","),
      O(A(<<S(<<Sep(K(","), N("lambda_param_with_default")), O(S(<<K(","),
      O(N("lambda_star_etc"))>>))>>), O(N("lambda_star_etc"))>>))>>))>>),
      N("lambda_star_etc")>>))>>))>>), S(<<Sep(K(","), N("lambda_param_no_default")), K(","),
      K("/"), O(S(<<K(","), O(A(<<S(<<Sep(K(","), N("lambda_param_with_default")), O(S(<<K(","),
      O(N("lambda_star_etc"))>>))>>), N("lambda_star_etc")>>))>>))>>), S(<<Sep(K(","),
      N("lambda_param_no_default")), K(","), Sep(K(","), N("lambda_param_with_default")),
      A(<<O(S(<<K(","), O(N("lambda_star_etc"))>>)), S(<<K(","), K("/"), O(S(<<K(","),
      O(A(<<S(<<Sep(K(","), N("lambda_param_with_default")), O(S(<<K(","),
      O(N("lambda_star_etc"))>>))>>), N("lambda_star_etc")>>))>>))>>)>>)>>), S(<<Sep(K(","),
      N("lambda_param_with_default")), K(","), K("/"), O(S(<<K(","), O(A(<<S(<<Sep(K(","),
      N("lambda_param_with_default")), O(S(<<K(","), O(N("lambda_star_etc"))>>))>>),
      N("lambda_star_etc")>>))>>))>>), S(<<Sep(K(","), N("lambda_param_with_default")),
      O(S(<<K(","), O(N("lambda_star_etc"))>>))>>), N("lambda_star_etc")>>),
  lambda_star_etc |-> A(<<S(<<N("lambda_starred_param"), O(S(<<K(","), Sep(K(","),
      N("lambda_param_maybe_default"))>>)), O(S(<<K(","),
      O(S(<<N("lambda_double_starred_param"), O(K(","))>>))>>))>>), S(<<K("*"), K(","),
      Sep(K(","), N("lambda_param_maybe_default")), O(S(<<K(","),
      O(S(<<N("lambda_double_starred_param"), O(K(","))>>))>>))>>),
      S(<<N("lambda_double_starred_param"), O(K(","))>>)>>),
  lambda_param_no_default |-> N("name_def"),
  lambda_param_with_default |-> S(<<N("name_def"), K("="), N("expression")>>),
  lambda_param_maybe_default |-> S(<<N("name_def"), O(S(<<K("="), N("expression")>>))>>),
  lambda_starred_param |-> S(<<K("*"), N("name_def")>>),
  lambda_double_starred_param |-> S(<<K("**"), N("name_def")>>),
  fstring |-> FStr(S(<<O(T("FStringString")), M(S(<<N("fstring_expr"),
      O(T("FStringString"))>>))>>)),
  fstring_conversion |-> S(<<K("!"), T("Conversion")>>),
  fstring_expr |-> A(<<S(<<K0("{"), N("field_exprs"), O(K("=")), O(N("fstring_conversion")),
      K("}")>>), S(<<K0("{"), N("field_exprs"), O(K("=")), O(N("fstring_conversion")),
      N("fstring_format_spec"), K0("}")>>)>>),
  fstring_format_spec |-> S(<<K(":"), O(T("FStringSpec")), M(S(<<N("fstring_expr"),
      O(T("FStringSpec"))>>))>>),
  strings |-> P(A(<<T("String"), N("fstring")>>)),
  bytes |-> P(T("Bytes")),
  tuple_content |-> S(<<N("star_named_expression"), K(","), O(N("star_named_expressions"))>>),
  dict_content |-> S(<<Sep(K(","), A(<<N("dict_starred"), N("dict_key_value")>>)), O(K(","))>>),
  dict_starred |-> S(<<K("**"), N("bitwise_or")>>),
  dict_key_value |-> S(<<N("expression"), K(":"), N("expression")>>),
  comprehension |-> S(<<N("named_expression"), N("for_if_clauses")>>),
  for_if_clauses |-> P(N("async_for_if_clause")),
  async_for_if_clause |-> S(<<O(K("async")), N("sync_for_if_clause")>>),
  sync_for_if_clause |-> S(<<K("for"), N("star_targets"), K("in"), N("disjunction"),
      M(N("comp_if"))>>),
  comp_if |-> S(<<K("if"), N("disjunction")>>),
  dict_comprehension |-> S(<<N("dict_key_value"), N("for_if_clauses")>>),
  arguments |-> A(<<S(<<Sep(K(","), A(<<N("starred_expression"), N("named_expression")>>)),
      O(S(<<K(","), O(N("kwargs"))>>))>>), N("kwargs")>>),
  kwargs |-> A(<<S(<<N("kwarg"), M(S(<<K(","), A(<<N("kwarg"), N("starred_expression")>>)>>)),
      O(S(<<K(","), N("double_starred_expression"), M(S(<<K(","), A(<<N("kwarg"),
      N("double_starred_expression")>>)>>))>>)), O(K(","))>>),
      S(<<N("double_starred_expression"), M(S(<<K(","), A(<<N("kwarg"),
      N("double_starred_expression")>>)>>)), O(K(","))>>)>>),
  starred_expression |-> S(<<K("*"), N("expression")>>),
  double_starred_expression |-> S(<<K("**"), N("expression")>>),
  kwarg |-> S(<<T("Name"), K("="), N("expression")>>),
  star_targets |-> S(<<Sep(K(","), N("star_target")), O(K(","))>>),
  star_target |-> S(<<O(K("*")), A(<<N("name_def"), N("t_primary"),
      N("star_target_brackets")>>)>>),
  star_target_brackets |-> A(<<S(<<K("("), O(Nd("star_targets", ParenTargets)), K(")")>>),
      S(<<K("["), O(N("star_targets")), K("]")>>)>>),
  single_target |-> A(<<N("name_def"), N("t_primary"), S(<<K("("), N("single_target"),
      K(")")>>)>>),
  t_primary |-> A(<<S(<<N("t_inner"), K("["), N("slices"), K("]")>>), S(<<N("t_inner"), K("."),
      N("name_def")>>)>>),
  name_def |-> T("Name"),
  del_targets |-> S(<<Sep(K(","), A(<<N("t_primary"), N("name_def"), N("del_t_atom")>>)),
      O(K(","))>>),
  del_t_atom |-> A(<<S(<<K("("), O(N("del_targets")), K(")")>>), S(<<K("["),
      O(N("del_targets")), K("]")>>)>>),
  t_inner |-> A(<<N("atom"), S(<<N("t_inner"), K("."), T("Name")>>), S(<<N("t_inner"), K("("),
      O(A(<<N("arguments"), N("comprehension")>>)), K(")")>>), S(<<N("t_inner"), K("["),
      N("slices"), K("]")>>)>>),
  field_exprs |-> S(<<Sep(K(","), FieldExpr), O(K(","))>>)
]
===============================================================================
