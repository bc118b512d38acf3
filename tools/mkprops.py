#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept as a script because JSONL is unpleasant to edit).
import json, os
TG, PA, FC, AST, SG, CST, BS = ("pkg/bnf/tablegen/tablegen.go", "pkg/parser/parser.go", "pkg/bnf/fromcst/fromcst.go",
  "pkg/bnf/ast.go", "pkg/bnf/selfgrammar.go", "pkg/cst/cst.go", "pkg/bnf/tablegen/byteset/byteset.go")
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
        mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))

p("C01", "A generated parser accepts exactly the language of its grammar",
  "For every grammar for which a parsing table is successfully generated, the resulting parser succeeds on a byte string if and only if the whole string, first byte to last, is derivable from the grammar's first rule. "
  "This holds for the empty input, for any bytes in terminals and inputs (control bytes, NUL and bytes >= 0x80 included), for multi-byte terminals, and for any chain of rules that can derive the empty string.",
  ["programs", "inputs"], "all grammars accepted by the table generator; all byte strings",
  "The tests parse about fifteen strings over four fixed grammars, none with more than one optional part in a row and none with NUL or high bytes; the claim ranges over all grammars and all inputs.",
  [TG, PA, BS], [("FIRST/FOLLOW fixed points and table rows", TG), ("predictive parse loop, end-of-input and literal matching", PA)],
  ["tablegen.FromGrammar", "parser.LL1Parser.Parse error result"],
  [("FIRST and FOLLOW sets", "lookahead bytes per rule, byte 0 standing for 'empty' / end of input", TG), ("scanner offset", "how much of the input is consumed", PA)])
p("C02", "A successful parse returns the derivation tree of the input",
  "When a parse succeeds the root is the first rule and spans the whole input; each rule node's children are, in order, the symbols of one alternative of that rule, their spans tile the parent's span without gap or overlap, and each literal leaf covers exactly its terminal's text in the input and has no children. "
  "A rule that derived the empty string is a zero-width node at its position whose only child is a zero-width 'nothing' leaf at the same position.",
  ["programs", "inputs"], "all generated parsers; all accepted inputs",
  "Reference trees exist for six short inputs over three toy grammars; nesting, adjacent empty rules, multi-byte terminals and long inputs are never checked.",
  [PA, CST, TG], [("reduction of parsed symbols into nodes", PA), ("production order in table rows", TG)], ["tree returned by Parse: Type, Pos, End, Childs"],
  [("node stack", "already parsed symbols waiting to become children", PA)])
p("C03", "Grammars that are not LL(1) are refused",
  "If in any rule two alternatives compete for the same next input byte - both can begin with it, or one can begin with it while another can be empty and the byte may follow the rule, or both can be empty where the byte may follow - table generation returns an error and no table. "
  "In particular a left-recursive or ambiguous grammar with a non-empty language is always refused, whatever the order of its rules and alternatives.",
  ["programs"], "all grammars having a lookahead conflict",
  "The only test about it (left recursion) fails at this commit and is not in the stable set; no stable test builds a table from a conflicting grammar.",
  [TG], [("detecting two productions for one table cell", TG)], ["error result of tablegen.FromGrammar"])
p("C04", "Every well-formed LL(1) grammar gets a parsing table",
  "A well-formed grammar in which no two alternatives of a rule compete for the same next byte is accepted: table generation succeeds, whatever the number and order of rules, however emptiness, first bytes and following bytes must propagate through chains and cycles of rules, and whichever bytes the terminals use.",
  ["programs"], "all well-formed LL(1) grammars",
  "Four fixed grammars are accepted by the tests; a spurious conflict on any other grammar would go unnoticed.",
  [TG, BS], [("FIRST/FOLLOW fixed points", TG), ("conflict decision per cell", TG)], ["error result of tablegen.FromGrammar"])
p("C05", "The generated table is exactly the predictive parsing table of the grammar",
  "The table has exactly one row per rule, numbered by the rule's position; in a row, a byte that can begin an alternative holds that alternative's complete symbol sequence in order (terminals with full text, rules by position), a byte that can only follow a rule that may be empty (0 meaning end of input) holds an empty sequence, and there is no other entry. "
  "What can begin or follow is decided by the complete least fixed point over all rules, not by adjacent symbols only.",
  ["programs"], "all well-formed LL(1) grammars",
  "Reference tables exist for four grammars, whose printed form is compared; none has an optional rule followed by another optional one, so an incomplete FOLLOW computation passes.",
  [TG, BS], [("sequence FIRST", TG), ("FOLLOW rules 1-4", TG), ("row construction", TG)], ["table returned by tablegen.FromGrammar"])
p("C06", "Malformed grammars are refused with an error, never a crash",
  "A grammar with no rules, a reference to an undefined rule, two rules of the same name, an alternative with no symbols, a terminal with empty text, a terminal beginning with NUL (the end-of-input marker), or the empty-string symbol next to other symbols is refused: table generation returns an error with no table and no names. "
  "This holds wherever the flaw sits - any rule, alternative or position, reachable or not - and table generation never panics on it.",
  ["programs"], "all grammars with at least one such flaw, at every position",
  "No test gives the generator a malformed grammar.",
  [TG], [("validation while collecting FIRST, FOLLOW and rows", TG)], ["error and nil results of tablegen.FromGrammar"])
p("C07", "Printing a grammar and reading it back yields the same grammar",
  "For every grammar expressible in the library's BNF notation (rule names of letters, digits and '-' starting with a letter; terminals of printable ASCII, tab, LF and CR; at least one alternative per rule and one symbol per alternative), the printed form is accepted by the BNF parser and converts back to an equal grammar: same rules in the same order, same alternatives, same symbols and texts, including quotes, backslashes and the empty string. "
  "Printing the re-read grammar gives the identical text.",
  ["programs"], "all grammars expressible in the notation",
  "No test touches the AST builder; the example round-trips one grammar (the built-in one). Which quote style and escapes are needed depends on the text of every terminal.",
  [AST, FC, SG, TG, PA], [("String methods with quote choice and escaping", AST), ("CST to AST conversion, escape decoding", FC)], ["Grammar.String", "ToAST result"])
p("C08", "Layout and spelling of BNF text do not change the grammar read from it",
  "Any legal way of writing a grammar - number of spaces wherever spaces are optional, LF or CRLF line ends, blank or space-only lines between and after rules, single or double quotes, a character written plainly or as its escape where both are allowed - is accepted and reads as the same grammar.",
  ["inputs", "programs"], "all grammars expressible in the notation, all legal layouts of each",
  "One test parses one two-line text and looks only at the absence of an error, not at the grammar read.",
  [SG, FC, PA, TG], [("built-in BNF grammar", SG), ("CST to AST conversion", FC)], ["Parse error result and ToAST result for BNF text"])
p("C09", "The BNF parser accepts exactly the documented BNF notation",
  "For every text, the parser generated from the built-in grammar accepts it if and only if it conforms to the documented notation (a backslash in a literal only as part of one of the escapes \\t \\n \\r \\\" \\\\); an accepted text converts without error to the grammar it denotes, with the quoted texts unescaped and \"\" as the empty string, and any other text is refused with an error and without a panic.",
  ["inputs"], "all byte strings",
  "One accepted text is tested; no refused text is. The notation has 26 rules, and near-miss texts are unbounded.",
  [SG, FC, PA, TG], [("built-in BNF grammar", SG), ("CST to AST conversion", FC)], ["Parse error result for BNF text", "ToAST result"])
p("C10", "Parsing any bytes ends in a tree or an error, never a crash or a hang",
  "With any generated parser, parsing any byte string terminates without panic; it returns either a tree and a name map with no error, or an error with neither tree nor map. "
  "Every span in a returned tree lies inside the input, with start <= end.",
  ["programs", "inputs"], "all generated parsers; all byte strings, accepted or not",
  "A handful of rejected strings for one grammar are tested; arbitrary bytes, truncated literals, NULs and long repetitions are not.",
  [PA, TG], [("explicit-stack parse loop", PA), ("end-of-input marker handling", PA)], ["Parse results"])
p("C11", "The kind of source does not matter, only its bytes",
  "Parsing the same bytes given as a string, a byte slice, a byte buffer (its unread part) or any reader, however it chunks its data and signals its end, gives identical results: same tree, names and error text. "
  "Byte slices and buffers are left unmodified and unconsumed, and anything that is not such a source (nil, a nil buffer, another type) is refused with an error and without tree or map.",
  ["inputs", "schedules"], "all inputs; all source kinds; all ways a reader can split its data",
  "Every test passes a string.",
  [PA], [("source reading", PA)], ["Parse results per source kind"])
p("C12", "Parsers and table generation carry no state between calls and alter no input",
  "Any sequence of table generations and parses, successful or failing, on shared grammars, tables, name maps and parsers gives for each call the result that a fresh, isolated call gives. "
  "No call modifies the grammar, table, name map, bindings or bytes passed in or any result returned earlier, changing the name map returned by a parse does not affect later calls, and the library prints nothing.",
  ["histories"], "all sequences of calls over shared objects",
  "Each test makes a few calls on a fresh parser and looks only at the last results; nothing checks arguments or earlier results afterwards.",
  [PA, TG], [("per-parse state object", PA), ("name map returned with the tree", PA), ("per-call generator object", TG)], ["results of each call", "arguments and earlier results after each call", "process output"],
  [("parser table and names", "shared by all parses of one parser", PA)])
p("C13", "Concurrent use is safe",
  "Any number of goroutines may at once parse with one shared parser, or with several parsers built over the same table and name map, generate tables from one shared grammar, print it, and convert shared trees to grammars with shared bindings: there is no data race and each call returns what it returns when run alone.",
  ["schedules", "inputs"], "all interleavings of parses and generations over shared objects",
  "The tests are sequential and are not run under the race detector.",
  [PA, TG, FC], [("parse state is per call", PA), ("name map returned with the tree", PA)], ["race detector reports", "results of concurrent calls"],
  [("parser table and names", "shared by concurrent parses", PA)])
p("C14", "A refused input is blamed on the byte where it stops being viable",
  "When a generated parser refuses an input, the error reports as the byte found the first byte that cannot continue any sentence of the grammar after the bytes before it (0 at the end of input). "
  "If it says which byte it expected, that byte can continue a sentence there; if it names a rule it had no entry for, that is a rule of the grammar; and it says the end was expected only when the bytes before form a complete sentence.",
  ["programs", "inputs"], "all generated parsers of grammars whose rules are all productive; all refused inputs",
  "Four messages over one linear grammar are compared; where the blame falls after optional or nested parts is not.",
  [PA, TG], [("error texts", PA), ("predictive choice without consuming input", PA)], ["error text of Parse"])
p("C15", "Tree walking visits nodes in document order and honours the visitor",
  "Walking any tree calls the visitor on every node exactly once, parents before children and children left to right; a node's children are visited with the visitor returned for that node and are skipped, together with everything below them, exactly when that visitor is nil. "
  "A node built by hand reports back the type, span and children it was given.",
  ["inputs", "programs"], "all trees; all visitor behaviours",
  "One test prints one hand-built tree with one never-pruning visitor.",
  [CST], [("recursive walk", CST), ("node constructor and accessors", CST)], ["sequence of Visit calls", "Node accessors"])
p("C16", "Byte sets behave as mathematical sets of bytes",
  "Under any sequence of operations a byte set agrees with the mathematical set of bytes 0-255: adding, removing, membership, size, listing in increasing order, union, equality, subset and superset tests, and printing as upper-case hex pairs. "
  "Sets are values: changing one never changes a set it was copied or computed from.",
  ["histories", "inputs"], "all operation sequences over all 256 byte values",
  "No test imports the byte set; it is exercised only through four grammars with ASCII terminals.",
  [BS], [("bit operations over four words", BS), ("de Bruijn bit index table", BS)], ["results of byte set operations"], [("four 64-bit words", "membership bits", BS)])
p("C17", "Every node type resolves to its rule's name",
  "The name map of a generated table maps exactly the rule positions to the rule names. The name map returned by a successful parse holds exactly those (or the names the parser was built with, possibly none) plus names for literal and empty leaves, so the type of every node of the tree resolves: rule nodes to the rule at that position, literal leaves to \"_literal\", empty leaves to \"_nothing\".",
  ["programs", "inputs", "configurations"], "all grammars, all accepted inputs, and all name maps a parser can be built with, nil and partial ones included",
  "Tested for the built-in grammar on one input; no test builds a parser without names and then reads the map.",
  [PA, TG], [("row names", TG), ("name map returned with the tree", PA)], ["names returned by FromGrammar and Parse"])
p("C18", "Order and naming of rules and alternatives do not change what is parsed",
  "Reordering a grammar's alternatives, reordering its rules after the first, or consistently renaming its rules changes neither whether a table can be generated nor which inputs are accepted, and the trees of accepted inputs are the same up to the renumbering and renaming of rules.",
  ["programs", "inputs"], "all grammars, LL(1) or not; all permutations and renamings; all inputs",
  "No test compares two versions of a grammar; whether a conflict is noticed or a FOLLOW set is complete may depend on the order in which rules are processed.",
  [TG, PA], [("fixed-point iteration over rules", TG), ("row construction", TG)], ["verdicts and trees for the two grammars"])
p("C19", "A hand-written table is followed exactly",
  "For any hand-written parsing table on which parsing terminates, parsing follows it literally from row 0: the current byte (0 at the end of input) selects the entry, whose symbols are matched left to right into the node's children, an empty entry yields an empty node, terminals must match byte for byte, and the built-in end-of-line symbol matches LF or CRLF. "
  "A missing entry or row, a mismatch, or left-over input is an error without tree or map, and a table that is empty or lacks row 0 is refused for every source.",
  ["configurations", "inputs"], "all tables, LL(1)-derived or not, and all inputs on which table-driven parsing terminates",
  "One hand-written table and one accepted string are tested.",
  [PA], [("table lookup and operation stack", PA), ("built-in end-of-line symbol", PA)], ["Parse results with custom tables"])
p("C20", "Tree-to-grammar conversion follows the given bindings",
  "Converting a BNF parse tree to a grammar depends only on the bindings given, not on how the meta-grammar numbers its rules: for any renumbering of the built-in grammar's rules with bindings renumbered to match, any order of the listed types and additional ignored types that carry no content, the resulting grammar is the same as with the built-in numbering. "
  "Escapes decode through the bindings' escape mapping, and an escape without a mapping is an error.",
  ["configurations", "inputs"], "all renumberings and escape mappings; all BNF texts",
  "No test calls the conversion; the example uses the default bindings on one text.",
  [FC, SG], [("bindings-driven tree search", FC), ("terminal text assembly", FC)], ["ToAST result with custom bindings"])
p("C21", "The JSON example accepts only JSON and outlines its keys faithfully",
  "The JSON example program, run on any document, succeeds if and only if the document is JSON restricted to what the example's note and grammar support (ASCII, spaces and LF/CRLF as whitespace, none inside an empty array), and then prints every object key once, in document order, indented by its nesting depth in objects and arrays. "
  "On any other document it exits with an error status.",
  ["inputs"], "all JSON and near-JSON documents",
  "The example is built but never run by the tests.",
  ["examples/json/main.go", "examples/json/json.bnf", TG, PA, FC, SG, CST], [("JSON grammar", "examples/json/json.bnf"), ("whole pipeline", "examples/json/main.go")], ["exit status and output of the example"])
p("C22", "Large grammars, long terminals, long and deeply nested inputs parse correctly",
  "Correctness does not depend on size: with hundreds of rules, alternatives and symbols, terminals of thousands of bytes, and inputs of hundreds of kilobytes, repeated or nested tens of thousands of levels deep, the parser accepts exactly the sentences and returns the exact derivation tree, and walking such a tree visits every node.",
  ["programs", "inputs"], "large grammars and large inputs, accepted and refused",
  "The longest tested input is 62 bytes, the largest grammar 26 rules.",
  [PA, TG, CST], [("explicit parse stacks", PA), ("rule numbering in tables", TG), ("recursive walk", CST)], ["Parse results on large inputs"])
p("C23", "A grammar written as text yields the parser it describes",
  "For any LL(1) grammar written in BNF text, the full pipeline (parse the text, convert it, generate the table, build the parser) gives a parser that accepts exactly the language the text describes and returns its derivation trees; for a text describing a malformed or non-LL(1) grammar the pipeline ends in an error, never in a parser or a panic.",
  ["programs", "inputs"], "all BNF texts and all inputs to the parsers they describe",
  "No test goes from text to a working parser; the two examples do it for one grammar each.",
  [SG, FC, TG, PA], [("whole pipeline", "examples/json/main.go")], ["end-to-end verdicts and trees"])
p("C24", "A source that fails is an error, never a truncated parse",
  "If a reader fails after any number of bytes, in any chunking and whether or not the bytes read so far form a sentence, parsing returns that failure as its error, with neither tree nor map; the same parser then parses later sources correctly.",
  ["fault_sequences", "inputs"], "all inputs, all failure points, all chunkings",
  "No test passes a reader at all.",
  [PA], [("source reading", PA)], ["Parse results with failing readers"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
