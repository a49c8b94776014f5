#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property list)."""
import json, os
P = []
LEX = "src/lexer/mod.rs"
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            observe_at=observe or [], hook_needed=None)))

NOLEX = "The existing tests build every token by hand and never run the tokenizer on text at all"

p("C01", "Tokenizing any text terminates without crashing",
  "For every Unicode text, tokenizing returns normally, and never panics, overflows, slices inside a character or produces an unbounded token list. It succeeds for every text except those that contain an OBTW comment opener with no later TLDR, for which it returns the unclosed-comment error.",
  ["inputs"], "all strings: arbitrary Unicode, LOLCODE-like fragments, truncations of programs at any character",
  NOLEX + "; which byte/char boundary, which last character and which fragment order occurs is quantified over all strings.",
  [LEX], [("per-construct recognisers tried in a fixed order, catch-all one-character symbol", "tokenize"), ("char-boundary slicing", "parse_string, parse_ellipsis, tokenize")],
  observe=["lolcode_ast::tokenize"])
p("C02", "Token offsets cover the source losslessly, in order",
  "For every tokenized text, the byte and character offsets of the tokens are in increasing order, do not overlap and lie on character boundaries; the only text not covered by a token is blank space. The text between a token's offsets spells exactly that token (its keyword, name, literal, comment, punctuation or symbol), and character offsets equal the number of characters before the corresponding byte offsets.",
  ["inputs"], "all strings the tokenizer accepts",
  NOLEX + ", so no test looks at byte or character offsets; equality of positions in the test suite compares line and column only.",
  [LEX, "src/lexer/position.rs", "src/lexer/range.rs"], [("every lexeme advances the current position and the remaining input by the same text", "make_token"), ("byte/char accumulation", "Position::add_assign")],
  state=[("current_position", "offset, line and column of the next unread character", "tokenize")],
  observe=["Token.range.{0,1}.bytes/chars"])
p("C03", "Every token reports its exact line and column",
  "For every tokenized text, a token's start and end line is one plus the number of newlines before that point, and its column is one plus the number of bytes since the last newline, also after comments and yarns that span lines. The start of one line never depends on the contents of earlier lines, except for how many there are.",
  ["inputs"], "all strings the tokenizer accepts, with text of any alphabet before the token on its line",
  NOLEX + "; positions in tests are fabricated by helpers, so line/column tracking over real text is never executed.",
  [LEX, "src/lexer/position.rs"], [("newline handling in blank space", "parse_whitespace"), ("newline handling inside lexemes", "Position::add / add_assign")],
  observe=["Token.range.{0,1}.line/column"])
p("C04", "Every keyword is recognised as a whole word, and only then",
  "In any text, each LOLCODE keyword phrase, written with single spaces and delimited on both sides, is tokenized to exactly that keyword (or to its literal, for WIN, FAIL and NOOB) and never to a shorter keyword followed by leftovers. A keyword's published spelling is its own phrase, spellings are pairwise distinct, and a keyword phrase that is continued by a letter, digit or underscore is not that keyword.",
  ["inputs"], "all 60 keywords x all delimiters x all contexts; all word continuations",
  NOLEX + ", and the keyword table is generated by a derive macro whose output no test looks at (replacing its spaces by dashes keeps all tests green).",
  [LEX, "src/lexer/keywords.rs", "lolcode-ast-derive/src/lib.rs"], [("derived spelling table and enumeration", "derive_to_string_slice, derive_iterable_enum"), ("keyword match by prefix plus word end", "parse_keyword, parse_boolean, parse_noob")],
  observe=["lolcode_ast::tokenize", "Keywords::to_string_slice"])
p("C05", "Every non-keyword name is one identifier token with that exact name",
  "Any name made of letters, digits and underscores that does not start with a digit, is not itself a keyword word and does not start with a comment marker is tokenized to exactly one identifier carrying exactly that name, whatever keyword letters it contains, starts or ends with. Names are case-sensitive and are never split, truncated or merged with their neighbours.",
  ["inputs"], "all names, in particular names that begin with, end with or contain keywords (R, A, AN, NOT, WIN ...), in all contexts",
  NOLEX + "; names with keyword prefixes or digits only appear in hand-made tokens.",
  [LEX], [("keyword recognition requires a word end", "parse_keyword"), ("maximal identifier run", "parse_identifier")],
  observe=["lolcode_ast::tokenize"])
p("C06", "Number, truth and NOOB literals keep their exact value",
  "Every decimal integer that fits 32 bits, with or without sign, is tokenized to one integer literal with that value; every decimal with a point to one float literal with the nearest 32-bit float; WIN, FAIL and NOOB to their literals. This holds wherever the literal stands, including as the very last characters of the text.",
  ["inputs"], "all i32 values, all decimal notations with one point (at either end too), with and without sign and leading zeros, in all delimiting contexts including end of input",
  NOLEX + "; numbers in tests are constructed as values, never parsed.",
  [LEX, "src/lexer/token.rs"], [("greedy digit run with one optional point", "parse_number"), ("literal words", "parse_boolean, parse_noob")],
  observe=["TokenType::Value"])
p("C07", "Yarn literals keep their exact contents and end at the right quote",
  "A quoted yarn is tokenized to one string literal whose contents are exactly the source text between its quotes, for any Unicode contents. An escaped quote (:\") or escaped colon (::) inside never ends the yarn or hides its end, the closing quote is the first unescaped one, and scanning resumes right after it.",
  ["inputs"], "all Unicode contents including escapes, newlines, keywords and comment markers inside yarns, and all texts after the closing quote",
  NOLEX + ", and the yarn scanner's index arithmetic and escape handling depend on the exact sequence of characters.",
  [LEX], [("escape-aware scan to the closing quote", "parse_string")],
  observe=["TokenValue::String"])
p("C08", "Comments span exactly their text; an unclosed one is reported",
  "A BTW comment is one token holding the rest of its line and nothing of the next; an OBTW comment is one token holding everything up to the first following TLDR, over any number of lines. An OBTW with no TLDR makes tokenizing fail with an error whose range runs from that OBTW to the end of the text, and nothing else makes it fail.",
  ["inputs"], "all comment contents (Unicode, quotes, keywords, other comment markers) at all places in a text",
  NOLEX + "; comment tokens and the tokenizer error are never produced in tests.",
  [LEX, "src/lexer/token.rs"], [("line comment scan", "parse_single_line_comment"), ("block comment scan and error", "parse_multi_line_comment")],
  observe=["TokenType::CommentSingleLine", "TokenType::CommentMultiLine", "TokenError"])
p("C09", "Punctuation has its own tokens; every other character is one symbol",
  "A comma, exclamation mark, question mark, slot access ('Z) and ellipsis (three dots or the single ellipsis character) each produce their dedicated token. Any other character that starts no word, literal or comment becomes a one-character symbol token carrying exactly that character, and neighbouring tokens are unaffected.",
  ["inputs"], "all characters of Unicode in all neighbourhoods",
  NOLEX + "; the classification of characters is quantified over all characters.",
  [LEX, "src/lexer/token.rs"], [("punctuation branches and catch-all symbol branch", "tokenize"), ("ellipsis and slot access", "parse_ellipsis, parse_bukkit_slot_access")],
  observe=["lolcode_ast::tokenize"])
p("C10", "Tokenizing is context-free across blank space and lines",
  "Adding, removing or changing blank space (spaces, tabs, carriage returns, newlines) between tokens that stay delimited changes no token's kind, value or order. Tokenizing two texts joined by a newline gives the first text's tokens followed by the second's with positions shifted by the first text's size, whenever the first leaves no yarn or comment open.",
  ["inputs", "programs"], "all pairs of texts and all re-spacings of a token sequence",
  NOLEX + "; relations between two tokenizer runs are outside what example tests express.",
  [LEX], [("stateless recognisers, position as the only carried state", "tokenize, make_token, parse_whitespace")],
  observe=["lolcode_ast::tokenize"])
p("C11", "Parsing any token sequence returns a tree without crashing",
  "For every sequence of tokens, well-formed or not, from the tokenizer or built by hand, parsing returns a block and never panics or runs away. Malformed input is reported inside the tree as error nodes.",
  ["inputs", "programs"], "all token sequences with up to a few hundred levels of nesting (unbounded nesting exhausts the stack of a recursive-descent parser: a recorded known finding)",
  "The tests try about forty fixed token sequences; every dispatch arm meets an unexpected token only for a few of them, and a single unanticipated pair of tokens is enough to abort.",
  ["src/parser/mod.rs", "src/parser/statements/mod.rs", "src/parser/expression/mod.rs", "src/parser/blocks.rs", "src/parser/statement_iterator.rs"],
  [("every parse failure is a Result turned into an error node", "parse_block"), ("dispatch on the first token", "parse_statement, ASTExpression::parse")],
  observe=["lolcode_ast::parse"])
p("C12", "Expressions parse to the tree their prefix notation denotes",
  "Every well-formed expression (literals, names, SRS names, slot-access chains, the twelve two-operand operators, NOT, and the three variadic operators with optional AN and with MKAY or end of statement) parses to the tree that its prefix notation denotes: same operator, same operands in the same order, same nesting, with each separator attached where it was written. Optional AN words never change the structure.",
  ["programs"], "all expression trees of bounded depth and width, all placements of optional words, in every statement position that accepts an expression",
  "A handful of operators and one nesting pattern appear in tests; operator x operand x nesting x optional-word combinations are unbounded.",
  ["src/parser/expression/mod.rs", "src/parser/expression/binary_operation.rs", "src/parser/expression/nary_operations.rs", "src/parser/expression/unary_operation.rs", "src/parser/expression/identifier.rs", "src/parser/expression/variable_access.rs"],
  [("operator dispatch", "ASTExpression::parse"), ("operand parsing", "BinaryOperation::parse, NaryOperation::parse, UnaryOperation::parse, VariableAccess::parse, Identifier::parse")],
  observe=["ASTExpression (Debug, variants)"])
p("C13", "An expression can list its own tokens and extent exactly",
  "For every parsed expression and variable access, iterating its tokens yields exactly the source tokens it was parsed from, each once and in source order, and then ends for good. Its range starts where its first token starts and ends where its last token ends, in every position field.",
  ["programs"], "all well-formed expressions, in particular with omitted or trailing AN and omitted MKAY, SRS and slot chains at every depth",
  "Seven iterator tests use fixed shapes and none calls the range queries; iterator state machines fail on particular combinations of optional parts.",
  ["src/parser/expression/mod.rs", "src/parser/expression/binary_operation.rs", "src/parser/expression/nary_operations.rs", "src/parser/expression/unary_operation.rs", "src/parser/expression/identifier_iterator.rs", "src/parser/expression/variable_access_iterator.rs", "src/parser/expression/variable_access.rs"],
  [("token iterator state machines", "*Iterator::next"), ("range computation", "ASTExpression::range, VariableAccess::range, Identifier::range")],
  observe=["ASTExpression::tokens", "ASTExpression::range", "VariableAccess::tokens/range"])
p("C14", "Every well-formed simple statement becomes exactly its node",
  "Each well-formed declaration, assignment, slot assignment, print, input, return, break, function call, program header, program end and bare expression parses to exactly one node of its own kind, carrying the right target, names, arguments, type or value and marker tokens in source order. Consecutive statements yield their nodes in source order, with nothing in between.",
  ["programs"], "all well-formed simple statements with arbitrary operands, in arbitrary sequences",
  "Each statement has one or two examples parsed in isolation through internal entry points; sequences of statements after one another are tested twice.",
  ["src/parser/statements/mod.rs", "src/parser/statements/assignment.rs", "src/parser/statements/bukkit_set_slot.rs", "src/parser/statements/found_yr.rs", "src/parser/statements/gimmeh.rs", "src/parser/statements/gtfo.rs", "src/parser/statements/hai.rs", "src/parser/statements/i_has_a.rs", "src/parser/statements/i_is.rs", "src/parser/statements/kthxbye.rs", "src/parser/statements/visible.rs", "src/parser/blocks.rs"],
  [("statement dispatch", "parse_statement"), ("one statement per line or comma", "parse_block, StatementIterator")],
  observe=["lolcode_ast::parse"])
p("C15", "Conditionals, switches, loops and functions nest exactly as written",
  "Every well-formed conditional, switch, loop and function, with any number of branches, cases and parameters, with empty or non-empty bodies and nested in each other to any depth, parses to one node whose branches, conditions, loop operation, labels, parameters and bodies are those written, in order. Each body contains exactly the statements between its delimiters, and statements after the closing delimiter belong to the enclosing block.",
  ["programs"], "all well-formed nested programs of bounded depth",
  "Tests parse one instance of each construct with flat, non-empty bodies, entered directly and with nothing after the closing delimiter.",
  ["src/parser/blocks.rs", "src/parser/statements/o_rly.rs", "src/parser/statements/wtf.rs", "src/parser/statements/im_in_yr.rs", "src/parser/statements/how_is_i.rs"],
  [("stop tokens per block kind", "parse_block_if/switch/loop/function"), ("branch and case loops", "ORly::parse, Wtf::parse, ImInYr::parse, HowIzI::parse")],
  observe=["lolcode_ast::parse"])
p("C16", "Layout and comments never change the parsed program",
  "Two texts that contain the same statements parse to the same tree up to positions, however the statements are separated (newlines of either style, commas, repeated separators, blank lines), indented, or continued over lines with an ellipsis. Adding or removing comments anywhere between tokens that stay delimited changes nothing either.",
  ["programs"], "all programs x all layouts of their token sequence",
  "Tests place tokens on fabricated lines; commas occur twice, ellipsis, blank lines and comments never.",
  ["src/parser/statement_iterator.rs", LEX], [("statement splitting by line, comma and ellipsis", "StatementIterator::next, next_statement"), ("comment tokens", "StatementIterator::new")],
  state=[("current_line", "line the current statement is on", "StatementIterator")],
  observe=["lolcode_ast::tokenize_and_parse"])
p("C17", "A tree without errors accounts for the whole program",
  "Whenever parsing reports no error anywhere in the tree, writing the tree back out as LOLCODE gives exactly the statements of the input, token by token. So no statement, operand, branch or word of the input is ever dropped, invented, reordered or misfiled without an error being reported.",
  ["inputs", "programs"], "all token sequences, in particular near misses: well-formed programs with tokens deleted, inserted, replaced, swapped or statements cut and duplicated",
  "Tests compare whole trees for about thirty inputs; acceptance of everything outside the grammar is a statement about all inputs.",
  ["src/parser/blocks.rs", "src/parser/statement_iterator.rs", "src/parser/statements/mod.rs", "src/parser/expression/mod.rs"],
  [("leftover tokens become an error", "parse_block"), ("parse functions consume what they store", "*::parse")],
  observe=["lolcode_ast::parse"])
p("C18", "Malformed statements get the documented error on the offending token",
  "Each documented malformation (missing or invalid name, value, operand, argument, question mark, label, loop operation or condition, MKAY, and tokens in excess or out of place) yields an error node of the documented kind that carries the documented token. The tokens that follow the point of failure in the same statement are reported as excess tokens.",
  ["inputs", "programs"], "all single-fault and multi-fault token sequences derived from well-formed programs",
  "About fifteen error examples are tested, each on one fixed sequence and mostly through internal entry points.",
  ["src/parser/error.rs", "src/parser/statements/assignment.rs", "src/parser/statements/bukkit_set_slot.rs", "src/parser/statements/how_is_i.rs", "src/parser/statements/i_has_a.rs", "src/parser/statements/i_is.rs", "src/parser/statements/im_in_yr.rs", "src/parser/statements/o_rly.rs", "src/parser/statements/wtf.rs", "src/parser/expression/mod.rs"],
  [("error construction at each expectation", "*::parse"), ("leftovers", "parse_block")],
  observe=["Node::ASTError"])
p("C19", "A broken statement never disturbs its neighbours",
  "Inserting a malformed simple statement anywhere in a program, at any nesting depth, adds one or more error nodes at that place (after the statement's own node when it only has excess tokens), all about tokens of that statement, and changes nothing else in the tree. The statements before and after it, in the same and in enclosing blocks, parse exactly as they did without it.",
  ["programs"], "all well-formed programs x all malformed simple statements x all insertion points",
  "Error tests parse a single statement with nothing around it; recovery is never exercised.",
  ["src/parser/blocks.rs", "src/parser/statement_iterator.rs"],
  [("error node plus skip to next statement", "parse_block"), ("statement boundary", "StatementIterator::next_statement")],
  observe=["lolcode_ast::parse"])
p("C20", "Unclosed, stray and misplaced block delimiters are always reported",
  "If a program's block openers and closers do not match (a closing word missing, a closing or branch word with no open block, branches out of order, or a body cut off by the end of the text), the tree contains at least one error. When the text ends inside open constructs, the outermost of them is reported on its opening word.",
  ["programs"], "all well-formed nested programs with one block delimiter removed, duplicated, moved or replaced, or cut at any statement boundary",
  "No test covers a missing or stray closing word.",
  ["src/parser/blocks.rs", "src/parser/statements/o_rly.rs", "src/parser/statements/wtf.rs", "src/parser/statements/im_in_yr.rs", "src/parser/statements/how_is_i.rs"],
  [("closing token check after each body", "ORly::parse, Wtf::parse, ImInYr::parse, HowIzI::parse")],
  observe=["Node::ASTError"])
p("C21", "The error listing returns every error in the tree, in order",
  "Listing the errors of a parsed block returns each error node in it, at any nesting depth, exactly once and in source order, and nothing else. It is empty exactly when the program parsed cleanly.",
  ["inputs", "programs"], "all token sequences, with errors in nested branches, cases, loops and functions",
  "No test calls the error listing.",
  ["src/parser/blocks.rs"], [("traversal of nested blocks", "ASTBlock::iter_errors, Node::get_inner_block")],
  observe=["ASTBlock::iter_errors"])
p("C22", "The tree is built only from the input's own tokens, each used once",
  "For every token sequence, every token found anywhere in the resulting tree (in nodes and in errors alike) is one of the input tokens with kind, value and position unchanged, and no input token is found twice. Nodes of a block appear in source order: all tokens of one node precede all tokens of the next.",
  ["inputs", "programs"], "all token sequences",
  "Tests compare against expected trees for fixed inputs; an invented, duplicated or re-ordered token on an error path is invisible to them.",
  ["src/parser/statements/mod.rs", "src/parser/blocks.rs", "src/parser/expression/mod.rs", "src/parser/error.rs"],
  [("tokens are moved from the input into the tree", "StatementIterator")],
  observe=["lolcode_ast::parse"])
p("C23", "The one-step entry point is tokenize-then-parse and deterministic",
  "For every text, the one-step entry point returns exactly the tokenizer's error if tokenizing fails, and otherwise exactly the tree that parsing the tokenizer's output gives. Repeating a call gives an equal result, whatever was tokenized and parsed in between, and two results are equal only if they print the same (the sign of a zero aside).",
  ["inputs"], "all texts",
  "The only test of the one-step entry point is a documentation example that does not compile.",
  ["src/lib.rs", "src/parser/mod.rs", LEX], [("composition", "tokenize_and_parse")],
  observe=["lolcode_ast::tokenize_and_parse"])
p("C24", "Programs compose: joined programs parse to joined trees",
  "Parsing one program followed by another gives the nodes of the first followed by the nodes of the second, whenever the first leaves no block open, even if either contains errors. Moving a program down or to a later offset in a file changes only the positions in its tree.",
  ["programs"], "all pairs of programs, error-free or not",
  "Relations between several parser runs are outside what the example tests express.",
  ["src/parser/blocks.rs", "src/parser/statement_iterator.rs"], [("no state carried between top-level statements", "parse_block, StatementIterator::next_statement")],
  observe=["lolcode_ast::parse"])
p("C25", "Position arithmetic is exact, additive and ordered",
  "Advancing a position by a text adds that text's byte and character counts, moves the line by its newlines and the column past its last line; advancing by two texts in turn equals advancing by their concatenation, and both ways of writing it agree. Positions compare by offset, a range built from positions keeps them, and the default position is the start of a text.",
  ["inputs"], "all positions x all texts and pairs of texts",
  "No test adds text to a position; tests use their own helper that changes only the column.",
  ["src/lexer/position.rs", "src/lexer/range.rs"], [("Add, AddAssign, PartialOrd, Default, From", "Position, Range")],
  observe=["Position + &str", "Position += &str", "Range::from"])
p("C26", "Conversions between tokens, parts of the tree and blocks lose nothing",
  "A token converts to a type exactly when it is one of the keywords NUMBR, NUMBAR, YARN, TROOF, NOOB and BUKKIT, giving the type of that name, and is otherwise handed back unchanged; it converts to an expression value exactly when it is a literal. Every type and operator gives back, borrowed or by value, exactly the token it was made of. A block made of nodes holds those nodes in that order, and taking it apart (from either end) returns them; a default block is empty. A node made of its content, or of a result, is that content's kind of node or the result's error, and an expression made of an operation or value is that one. The error listing of a block put together from nodes is what its nodes list one after another.",
  ["inputs", "programs"], "all tokens, of any kind and position, and all nodes of parsed programs in any order",
  "No test calls these conversions, except where a parse function goes through them for a few fixed tokens.",
  ["src/parser/expression/identifier.rs", "src/parser/expression/mod.rs", "src/parser/expression/binary_operation.rs", "src/parser/expression/unary_operation.rs", "src/parser/expression/nary_operations.rs", "src/parser/blocks.rs", "src/parser/statements/mod.rs"],
  [("TryFrom<Token>, token, into_token", "ASTType, ASTExpressionValue, BinaryOpt, UnaryOpt, NaryOpt"), ("From, IntoIterator, Default", "ASTBlock, Node, ASTExpression")],
  observe=["ASTType::try_from", "BinaryOpt::into_token", "ASTBlock::from", "Node::from"])
p("C27", "Equality and printing of positions, tokens and trees agree",
  "Two positions are equal exactly when their lines and columns are, and are written as those two numbers; two ranges exactly when both ends are; two tokens exactly when their kinds, values and ranges are; two trees, or nodes, exactly when they print the same (the sign of a zero aside). Equality is symmetric and inequality its negation. A clone of a token or tree is equal to the original, has the same positions, and prints the same.",
  ["inputs", "programs"], "all pairs of tokens, and of trees of programs that differ in a detail of one token",
  "Tests use equality to compare, but never test it, nor any pair that differs in a detail only.",
  ["src/lexer/position.rs", "src/lexer/range.rs", "src/lexer/token.rs", "src/parser/blocks.rs", "src/parser/statements/mod.rs"],
  [("PartialEq, Clone, Display, Debug", "Position, Range, Token, ASTBlock, Node")],
  observe=["==", "Display", "Debug", "Clone"])

path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(path, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
