B = "bounded check on generated cases"
prop("C05", ["printer.VLQEncode", "printer.VLQDecode", "printer.verif_roundTrip", "printer.lemma_.*"], level="proof", secs=10,
     technique="contracts on VLQEncode and VLQDecode, deductively verified (gocv, SMT); bounded comparison with a reference besides",
     note="proved for all 32-bit integers in range and all byte slices",
     assumptions=["32-bit arithmetic is modelled exactly (two's complement)", "slices are values (no aliasing through append)"])
prop("C02", ["lexer\\..*"], level="proof",
     technique="contracts on every function of the lexer against a specification of CSS Syntax 3 tokenization, deductively verified (gocv, SMT); bounded comparison with an independent tokenizer besides",
     note="proved for all texts: kind, start, end and text of every token, errors only for what is not a token, termination, no runtime panics; the line table",
     assumptions=["unicode/utf8.DecodeRuneInString is modelled by what its documentation states", "integers of the platform's word size are mathematical", "slices are values (no aliasing through append)"])
for i in "C03 C13 C16".split():
    prop(i, [], technique=B, note="bounded")
prop("C18", ["esbuildplugin\\..*", "sources\\..*"], harness="plugin", level="proof",
     technique="contracts on the plugin's reporter (every error is kept, in order), on the conversion to esbuild's messages (one for each error, in order, with the place) and on the line table, deductively verified (gocv, SMT); bounded check of the whole plugin besides",
     note="proved for all lists of errors: text, file, line, column, length and the text of the line of each message. That the plugin passes every option and the content of the requested file on is checked on generated projects only (bounded)",
     assumptions=["errors.As is a function of the error", "errors with a location have one in their source, up to which the line table is that of the text (C07)", "the compiler reports no nil errors", "texts are shorter than 2^31-2 bytes", "slices are values (no aliasing through append)"])
prop("C14", ["resolver\\..*"], level="proof",
     technique="contracts on every function of the resolver: the result is the first candidate in the documented order that is a file (defined by recursion on the parent directories), and the walk ends; deductively verified (gocv, SMT); bounded check against an independent resolver on generated directory trees besides",
     note="proved for all specifiers, directories and contents of the file system",
     assumptions=["the file system does not change during a resolution: os.Stat, ioutil.ReadFile and os.IsNotExist are functions of their arguments", "filepath.Join is a function of its arguments; filepath.Dir yields its argument, '.' or a shorter path", "json.Unmarshal is a function of the bytes for each key", "a file is what is no directory"])
prop("C15", [], harness="race", technique=B, note="bounded")
prop("C07", ["sources\\..*", "logging\\..*", "lexer\\..*"], level="proof",
     technique="contracts on the line table, LineAndCol, FullLine, AnnotateSourceSpan and the error text, and on every place where the lexer reports an error, deductively verified (gocv, SMT); bounded check of the whole property besides",
     note="proved for all texts and places: line, column, the quoted line and its underlining; the line table of the lexer; that the lexer's errors are at a place in the text. Which place the parser and the transformer report is bounded",
     assumptions=["strings.Count, strings.ReplaceAll and strings.Repeat are modelled as functions of their arguments", "texts are shorter than 2^31-2 bytes", "slices are values (no aliasing through append)"])

prop("C04", ["printer\\.(Print|printer_print|printer_printValues|printer_printMapping|printer_addMapping|stringMark|VLQEncode)"], level="proof",
     technique="contracts on every function of the printer: the text written is a function of the tree alone (defined by recursion on the tree), and nothing but the printer's own state is modified; deductively verified (gocv, SMT). Bounded check besides",
     note="proved for all well-formed trees of any size: each kind of node, every list, the source map comment; termination; no runtime panics",
     assumptions=["trees are finite and are not shared in cycles (height measure)", "interfaces do not hold nil pointers", "json.Marshal and base64 are functions of their argument", "outputs and sources are shorter than 2^30-1 bytes when there is a source map", "slices are values (no aliasing through append)"])
prop("C06", ["printer\\..*", "sources\\..*"], level="proof",
     technique="contracts on the printer: every style rule and at-rule, in order, appends one mapping that is the delta encoding of its position in the output and in the source (defined by recursion on the tree), on the line table and on VLQ; deductively verified (gocv, SMT). Bounded check of decoded maps besides",
     note="proved for all well-formed trees and sources: the mappings text is that of the specification and its numbers can be read back. That the parser's spans begin where the rules begin, and that the JSON is valid, is bounded",
     assumptions=["trees are finite and are not shared in cycles (height measure)", "json.Marshal and base64 are functions of their argument", "outputs and sources are shorter than 2^30-1 bytes", "slices are values (no aliasing through append)"])

TREE = ["trees are finite and are not shared in cycles (height measure)", "interfaces do not hold nil pointers", "slices are values (no aliasing through append)",
        "floating point operations, strconv.ParseFloat and strconv.FormatFloat are functions of their arguments", "the object invariants of the tree (contracts/internal/ast) hold of what the parser makes", "a Reporter does not change the tree"]
MEDIA = ["transformer.transformer_transformMediaFeatureRange", "transformer.transformer_transformMediaQueryParts", "transformer.transformer_addToValue", "transformer.transformer_addError", "transformer.lemma_cat_specParts"]
CALC = ["transformer.transformer_doMath", "transformer.transformer_evaluateMathExpression", "transformer.transformer_transformValues", "transformer.transformer_transformMathOperand", "transformer.relocate", "transformer.transformer_addError", "transformer.transformer_addWarn", "transformer.lemma_.*"]
prop("C08", ["transformer.transformer_transformSelector", "transformer.transformer_transformSelectors", "transformer.transformer_transformPseudoClassArguments"],
     technique="contracts on the functions that transform selectors: a selector becomes two for each :any-link, one without it stays itself with the same parts, with the transform off nothing changes, the parts are finite; deductively verified (gocv, SMT); the text of each of the selectors by a bounded check on generated cases",
     note="proved for all selectors: how many there are, and what stays as it is. What each of them is (:visited and :link in the place of :any-link) is bounded",
     assumptions=TREE)
prop("C09", MEDIA, level="proof",
     technique="contracts on the functions that lower media ranges and transform the parts of a media query: the features that replace a range, the direction and strictness of each bound, what is reported; deductively verified (gocv, SMT); bounded check of the whole compiler besides",
     note="proved for every range and every list of parts. That every media query of a stylesheet is passed to these functions, and what the printer and the parser make of ranges, is checked on generated stylesheets only (bounded)",
     assumptions=TREE)
prop("C10", MEDIA, level="proof",
     technique="contract on the function that substitutes custom media in the parts of a media query: each use is replaced by the parts of the recorded definition, in order, and all else is kept; deductively verified (gocv, SMT); bounded check of the whole compiler besides",
     note="proved for every list of parts and every table of definitions. That the table holds the latest definition, that definitions are removed, and that every query is passed to the function is checked on generated stylesheets only (bounded)",
     assumptions=TREE)
prop("C11", CALC, level="proof",
     technique="contracts on the functions that replace values: a var() at any depth is replaced by the recorded values of its name, or by its replaced fallback, and every other value is kept (defined by recursion on the tree); deductively verified (gocv, SMT); bounded check of the whole compiler besides",
     note="proved for every list of values and every table of definitions. That the table holds the latest :root definition, that these are removed, and that every declaration is passed to the function is checked on generated stylesheets only (bounded)",
     assumptions=TREE)
prop("C12", CALC, level="proof",
     technique="contracts on the functions that evaluate math: the value and unit under the type rules of CSS, what is left alone, and what is reported (defined by recursion on the expression); deductively verified (gocv, SMT); bounded check of the whole compiler besides",
     note="proved for every expression, with the float64 operations as uninterpreted functions (that + is applied to the two numbers, not how it rounds); which declarations are passed to the functions is checked on generated stylesheets only (bounded)",
     assumptions=TREE)
prop("C17", ["transformer\\..*"], level="proof",
     technique="contract on Transform, over contracts on every function of the transformer: with a transform off, what it would transform is as it was (of an arbitrary selector, media query, declaration and block), the rules that are left are those that are more than a prelude, in order, and nothing is reported; what no transform may change is a frame condition; deductively verified (gocv, SMT); bounded check of the whole compiler besides",
     note="proved for all well-formed trees and all combinations of options. The list of rules that are left is proved for custom properties off; @custom-media rules are left out of it (known finding)",
     assumptions=TREE + ["the stylesheets that replace imports form no cycle (bounded: C13)"])
prop("C01", ["parser\\..*", "lexer\\..*", "printer\\..*", "transformer\\..*", "sources\\..*", "logging\\..*"], level="proof",
     technique="contracts on every function of the lexer, parser, transformer and printer: no index, slice, conversion, nil or type assertion fails, the only panics are the lexer's errors and they are recovered where they must be, and every loop and recursion has a measure that decreases; deductively verified (gocv, SMT); bounded check of the whole compiler besides",
     note="proved for all texts and all options: parsing, transforming and printing return. That api.go's goroutines finish, and the resolver, are checked on generated projects only (bounded); memory and stack are unlimited in the proof",
     assumptions=TREE + ["the stylesheets that replace imports form no cycle (bounded: C13)", "unicode/utf8 is modelled by what its documentation states", "outputs and sources are shorter than 2^30-1 bytes", "a Reporter returns"])
