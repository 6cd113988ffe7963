"""What every property is: text, anchors, the contracts that decide it, the bounded part."""

ENGINE_TRUST = [
    "pyvc (/verif/pyvc): the symbolic executor of the Python subset and its model of str, list, dict, set, tuple, dataclasses and exceptions",
    "z3 4.15 (python bindings), z3 4.8.12/z3-new and cvc5 1.1.2 command lines: an obligation counts as discharged when one of them answers unsat",
    "CPython runs the verified source text with the meaning pyvc gives it; integers are mathematical, as in Python; memory is unbounded",
    "types of parameters and attributes are taken from the annotations and from /verif/contracts (field declarations); aliasing of distinct parameters is allowed, concurrency is not considered",
]

M = "mau/"
P = M + "parsers/"


def prop(title, statement, over, text, why, files, mech, keys=(), level="proof", bounded="", note="", seconds=20, state=(), observe=(), **kw):
    return dict(title=title, statement=statement, over=over, qtext=text, why=why, files=files, mech=mech, keys=list(keys), level=level, bounded=bounded, note=note, seconds=seconds, state=list(state), observe=list(observe), **kw)


PROPS = {}

PROPS["C01"] = prop(
    "Lexing ends, with exactly one end-of-input token, for every text",
    "For every text, lexing either ends with a list of tokens whose last token, and only the last, marks the end of the input, or it is refused with a Mau error. It never loops for ever and never fails in another way.",
    ["inputs"], "all texts, for each of the five lexers",
    "the tests lex a few dozen fixed strings; progress must hold at every position of every string",
    [M + "lexers/base_lexer.py", M + "text_buffer.py", M + "lexers/document_lexer.py"],
    [("every lexing step moves the buffer forward or emits the final token", "BaseLexer._process"), ("position only grows", "TextBuffer.skip/nextline")],
    keys=["BaseLexer.*", "*Lexer._process", "*Lexer.process", "DocumentLexer._process_*", "TextBuffer.*"], observe=["token list of each lexer"],
    bounded="the message of a refused text")

PROPS["C02"] = prop(
    "Every token carries exactly the source text at its recorded position",
    "The text of every token equals the source text found at the line and column range the token records, and the tokens follow each other in source order without overlapping.",
    ["inputs"], "all texts, all start offsets, each lexer",
    "positions are compared for fixed snippets only; every path of every lexing function computes positions",
    [M + "lexers/base_lexer.py", M + "text_buffer.py", M + "token.py"],
    [("position before and after skipping the text", "BaseLexer._create_token_and_skip")],
    keys=["*Lexer.*", "TextBuffer.*"], observe=["value and context of every token"])

PROPS["C03"] = prop(
    "Lexing drops nothing but comments and blank space",
    "Every character of the source is part of a token, except blank space, line ends and comments. No lexer skips or invents text.",
    ["inputs"], "all texts, each lexer",
    "a dropped character shows only for particular combinations of markers, which fixed snippets do not contain",
    [M + "lexers/base_lexer.py", M + "lexers/document_lexer.py", M + "lexers/text_lexer.py", M + "lexers/arguments_lexer.py"],
    [("a function consumes exactly what it turns into tokens", "lexing functions of each lexer")],
    keys=["*Lexer.*", "TextBuffer.*"], observe=["values of all tokens, against the source"])

PROPS["C04"] = prop(
    "A parsing alternative that fails leaves no trace",
    "When a parsing alternative fails, the position in the token stream is exactly what it was before the attempt, for any nesting of attempts, and the next alternative starts from there. Reading past the end keeps giving the end token.",
    ["inputs", "histories"], "all token lists and all sequences of reading, peeking, collecting and nested attempts",
    "the tests try a few attempts on short token lists; the stack discipline must hold for every history",
    [P + "managers/tokens_manager.py", P + "base_parser.py"],
    [("saved positions", "TokensManager context manager"), ("end token by default", "TokensManager.get_token/peek_token")],
    state=[("index", "number of tokens consumed", "TokensManager.index"), ("saved positions", "stack of nested attempts", "TokensManager")],
    keys=["TokensManager.*", "*_processor", "BaseParser._save"], observe=["tokens returned and position after each call"],
    bounded="the with-statement protocol around generators is exercised by generated histories")

PROPS["C05"] = prop(
    "Delimited text extends exactly to the first unescaped delimiter",
    "Collecting text up to a delimiter returns exactly the tokens before the first delimiter that is not preceded by an escape, never consumes the delimiter, and removes only the escapes that protected a delimiter (or keeps them when asked to).",
    ["inputs"], "all token lists, delimiters and escape settings",
    "tests cover single escapes; runs of escapes, escapes before the end and several delimiters are not sampled",
    [P + "managers/tokens_manager.py"],
    [("collection loop", "TokensManager.collect"), ("joining", "TokensManager.collect_join")],
    keys=["TokensManager.collect*", "TokensManager.peek_token*", "TokensManager.get_token"], observe=["collected tokens and what is left"])

PROPS["C06"] = prop(
    "Arguments are matched to names without loss or duplication",
    "When names are given to positional arguments, the values are assigned in order to the names that are not already set by keyword, the values left over stay positional in order, and explicitly named values are never replaced. Every value written in an argument list is found exactly once, with its exact text (named values without the blank space around them), among the arguments of the element.",
    ["inputs"], "all argument lists (quoted, escaped, named, positional, empty values) and all name lists",
    "the combinations of keyword and positional values are unbounded; tests sample about ten",
    [M + "nodes/node_arguments.py", P + "arguments_parser.py"],
    [("matching", "set_names"), ("parsing of values", "ArgumentsParser._process_arguments")],
    keys=["set_names", "ArgumentsParser.arguments", "ArgumentsParser._process_*", "process_arguments*"], observe=["positional and named arguments of the parsed element"],
    bounded="a named and an unnamed argument are each proved to be taken from the tokens in full and unchanged; the loop over the whole argument list (ArgumentsParser.parse) is searched")

PROPS["C07"] = prop(
    "Tags, internal tags, subtype and aliases are classified by their prefix only",
    "An argument that starts with # is a tag (with #mau: an internal tag), with * the subtype, and with @ an alias whose configured arguments, names and subtype are applied; every other argument is an ordinary value. A second subtype, or an alias that is not defined, is refused with a Mau error, and explicit values win over those of the alias.",
    ["inputs", "configurations"], "all argument lists and alias configurations",
    "the order and number of prefixed arguments is free; tests use one or two",
    [P + "arguments_parser.py"],
    [("classification", "ArgumentsParser")], keys=["ArgumentsParser._isolate_*", "ArgumentsParser.arguments"],
    bounded="lists that use an alias are searched; the classification of lists without an alias is proved",
    observe=["arguments of the parsed element"])

PROPS["C08"] = prop(
    "Arguments, labels and conditions apply to exactly the next element",
    "Arguments, labels and conditions written before an element apply to that element in full and to no other, also when comments or empty lines lie between them, and whether the element is kept or dropped. After that they are gone.",
    ["programs"], "all sequences of element kinds, preceded by any arguments, labels and conditions, nested in blocks to any depth",
    "leaking state shows only for particular pairs of neighbouring elements; tests look at single elements",
    [P + "buffers/arguments_buffer.py", P + "buffers/label_buffer.py", P + "buffers/control_buffer.py", P + "document_processors/"],
    [("one-shot buffers", "pop empties the buffer"), ("every element empties all buffers", "element processors")],
    state=[("buffers", "what waits for the next element", "parser buffers")],
    keys=["ArgumentsBuffer.*", "LabelBuffer.*", "ControlBuffer.*", "*_processor", "DocumentParser.pop_labels"], observe=["arguments and labels of every node, list of nodes"],
    bounded="arguments, labels, conditions, variable definitions, horizontal rules, headers and paragraphs are proved to fill, keep or empty the three buffers as stated; lists, blocks, includes and raw lines are searched with generated documents")

PROPS["C09"] = prop(
    "Conditional content is present if and only if its condition holds",
    "An element under a condition is in the result exactly when the condition holds for the variables defined at that point, and a dropped element is not listed anywhere (table of contents, footnotes, groups). An inline condition gives the text for the branch that holds and nothing of the other one; a condition on an unknown variable is refused with a Mau error.",
    ["inputs", "programs"], "all variables, values, operators and element kinds",
    "each element kind evaluates the condition on its own; tests cover a few kinds with two values",
    [P + "buffers/control_buffer.py", P + "document_processors/", P + "text_parser.py"],
    [("evaluation", "Control.process"), ("dropping", "element processors"), ("inline conditions", "TextParser")],
    keys=["ControlBuffer.*", "Control.*", "*_processor", "ConditionParser._process_condition", "process_condition_with_variables"], observe=["nodes of the document", "rendered text"],
    bounded="the reading of a condition and its evaluation are proved, and horizontal rules, headers and paragraphs are proved to be dropped exactly when the condition fails; the other element processors and inline conditions are searched with generated documents")

PROPS["C10"] = prop(
    "Variables are replaced everywhere by their latest value, and nothing else is",
    "A name in curly braces is replaced by the value the variable has at that point of the document, in every place where text is processed; escaped braces, double braces and text between backticks stay as written, and all other text is unchanged. A definition takes effect for the rest of the document only and changes only that variable; an unknown name is refused with a Mau error.",
    ["inputs", "programs"], "all texts, environments and sequences of definitions and uses",
    "interaction of escapes, backticks and braces at any position, and any order of definitions and uses",
    [P + "preprocess_variables_parser.py", P + "document_processors/variable_definition.py"],
    [("replacement", "PreprocessVariablesParser"), ("definition", "variable definition processor")], keys=["PreprocessVariablesParser.*", "PreprocessVariablesLexer.*", "variable_definition_processor", "Environment.__setitem__", "Environment.__getitem__"],
    bounded="the replacement of a text and the definition of a variable are proved; that every place where text is processed uses the replacement is searched with generated documents",
    observe=["processed text", "environment after parsing"])

PROPS["C11"] = prop(
    "The variable store follows the laws of a flat map with dotted names",
    "After storing any nested dictionary, every leaf is found under its dotted name and nothing else changed; merging with or without overwriting keeps the newer or the older value for every name; a copy is independent of the original. Turning the store into nested form and back gives the same store.",
    ["inputs", "histories"], "all nested dictionaries (with dotted and conflicting names) and sequences of operations",
    "conflicts between a name and a prefix of another name, and sequences of merges, are not sampled",
    [M + "environment/environment.py", M + "environment/helpers.py"],
    [("flattening and nesting", "environment helpers"), ("merging", "Environment.update/dupdate")], keys=["Environment.*", "flatten_nested_dict"],
    bounded="the operations are proved for flat dictionaries and for the top level of nested ones; the dotted names of deeper levels and the nested form are searched",
    observe=["flat and nested form of the store"])

PROPS["C12"] = prop(
    "Include loops are refused; documents are included in full, in place",
    "A document that includes itself, directly or through any chain of included files and blocks, is refused with a Mau error instead of looping; a file that cannot be read is refused too. A set of files that include each other as a tree is accepted, the content appears at the place of the include, and every call is recorded.",
    ["programs", "fault_sequences"], "all include graphs, includes inside blocks, unreadable files",
    "tests build chains of two or three files; loops through blocks and longer chains are not covered",
    [P + "document_processors/include.py", P + "document_processors/block_engines/default.py"],
    [("list of files being included", "forbidden includes passed to nested parsers")], level="exploration",
    observe=["nodes, error, recorded calls"])

PROPS["C13"] = prop(
    "Included documents do not change the variables of the including document",
    "Definitions in an included document never change or add a variable of the including document; the included document sees the variables of the including one and the call arguments, or only the call arguments when the environment is not passed.",
    ["programs"], "all sequences of definitions, uses and nested includes",
    "needs a use after the include and several levels; tests check one level",
    [P + "document_processors/include.py", M + "environment/environment.py"],
    [("copy of the environment", "Environment.from_environment")], keys=["Environment.from_environment", "Environment.update", "Environment.__setitem__"],
    bounded="the copy and the merge of environments are proved; that include elements use them is searched with generated sets of files",
    observe=["text after variable replacement", "environment after parsing"])

PROPS["C14"] = prop(
    "The table of contents lists every header once, in order, in the right tree",
    "Every table of contents lists exactly the headers of its document scope (blocks marked as not isolated included), once each and in document order; in the nested form each header is below the nearest preceding header of a lower level. Every header has an internal identifier, the given one or the generated one.",
    ["programs"], "all sequences of header levels, blocks and table of contents nodes",
    "the tree depends on the whole sequence of levels; tests use short well-formed sequences",
    [P + "managers/toc_manager.py", P + "document_processors/header.py", P + "document_parser.py"],
    [("tree", "add_nodes_under_level"), ("collection", "TocManager")], keys=["TocManager.*", "header_processor"],
    bounded="the nested form (add_nodes_under_level) and the collection from blocks are searched with generated documents; the list kept by TocManager (add_header, add_toc_node, update) and the header processor are proved",
    observe=["plain and nested entries"])

PROPS["C15"] = prop(
    "Footnotes: every mention is linked to its note, lists are complete and numbered",
    "Every mention of a footnote is linked to the note of that name; the notes of a document are numbered from 1 in the order of their definitions, and every list of footnotes shows all of them in that order. A mention without a definition and a second definition of a name are refused with a Mau error.",
    ["programs"], "all interleavings of mentions, definitions, lists and blocks that are or are not isolated",
    "order and multiplicity are free; tests use one or two notes",
    [P + "managers/footnotes_manager.py", P + "document_processors/block.py"],
    [("linking", "FootnotesManager.process")], keys=["FootnotesManager.*"],
    observe=["footnote of every mention, contents of the lists"],
    bounded="collection by the text parser and the block processor is searched with generated documents")

PROPS["C16"] = prop(
    "Every header link leads to the header with that name",
    "Every link to a header leads to the header that carries that name, and shows the given text or a copy of the text of the header. A link to a name that does not exist and a second header with the same name are refused with a Mau error.",
    ["programs"], "all interleavings of named headers, links and blocks that are or are not isolated",
    "tests use one header and one link",
    [P + "managers/header_links_manager.py", P + "document_processors/header.py"],
    [("linking", "HeaderLinksManager.process")], keys=["HeaderLinksManager.*", "header_processor"],
    observe=["target and content of every link"],
    bounded="collection by the text parser is searched with generated documents")

PROPS["C17"] = prop(
    "Block groups show exactly their blocks, at their positions",
    "A block that names a group and a position is shown in every include of that group at that position and nowhere else. Two blocks at one position of a group, and an include of a group that has no block, are refused with a Mau error.",
    ["programs"], "all interleavings of grouped blocks and group includes",
    "order and multiplicity are free; tests use one group",
    [P + "managers/blockgroup_manager.py", P + "document_processors/block.py"],
    [("grouping", "BlockGroupManager")], keys=["BlockGroupManager.*"],
    bounded="that the block processor and the include processor hand every grouped block and group include to the manager is searched with generated documents",
    observe=["items of every group include, list of nodes"])

PROPS["C18"] = prop(
    "Raw and source blocks keep their content line by line",
    "A raw block, an included raw file and a source block contain exactly the lines that were written, in order and unchanged whatever they look like, and source lines are numbered from 1. Only a marker or highlight at the very end of a source line, between the configured delimiters, is separated from the code and attached to its line.",
    ["inputs", "configurations"], "all contents, delimiters, highlight markers and styles",
    "the contents are arbitrary; tests use simple code and the default delimiter",
    [P + "document_processors/block_engines/raw.py", P + "document_processors/block_engines/source.py", P + "document_processors/include.py"],
    [("splitting into lines", "raw and source engines")], keys=["parse_raw_engine", "parse_source_engine", "create_source_line", "NodeArguments.set_names"],
    bounded="the reading of included raw files, the way from the block in the document to its engine, the name of the highlight style and the position of markers are searched with generated blocks and files",
    observe=["lines of the node"])

PROPS["C19"] = prop(
    "The most specific matching template is chosen, prefixes first",
    "A node is rendered with a template all of whose claims (type, subtype, prefix, parent, tags, custom fields) hold for that node; among those, templates of an earlier prefix win, then the more specific one. If no template matches, rendering is refused with a Mau error.",
    ["configurations", "inputs"], "all sets of templates, prefixes, nodes and parents",
    "the number of combinations of claims is large; tests check a few pairs",
    [M + "visitors/jinja_visitor.py"],
    [("matching", "Template.match"), ("order", "Template.specificity"), ("choice", "JinjaVisitor._find_matching_template")],
    keys=["Template.*", "Node.custom_template_fields", "JinjaVisitor._find_matching_template"],
    bounded="the reading of a template name (Template.from_name), the sorting of the templates by specificity and the rendering with Jinja are searched with generated templates",
    observe=["template used"])

PROPS["C20"] = prop(
    "A copy of a node tree is equal, separate, and below the given parent",
    "Copying a node gives a node of the same kind with equal content, whose children are copies below the new nodes in the same order; no node of the copied tree is shared with the original, except the targets of cross references, and the copy is below the parent that was asked for. The original is not changed.",
    ["inputs"], "all node trees that documents can produce",
    "every node type has its own copying code, of which tests exercise little",
    [M + "nodes/"],
    [("copying", "deepcopy of each node type")], keys=["Node.deepcopy", "*Node.deepcopy", "NodeContentMixin._deepcopy_content", "NodeLabelsMixin._deepcopy_labels"],
    bounded="that the trees of whole documents are equal and separate (the induction over the tree) is also searched with generated documents",
    observe=["the two trees"])

PROPS["C21"] = prop(
    "Visitors return every node's data, with children complete and in order",
    "Visiting a document gives, for every node, its type, arguments, position, parent and all of its own data, and the results of all its children, complete and in document order. Text rendered through templates keeps the order of the children.",
    ["inputs"], "all documents",
    "every node type has its own visiting code; a missing or misplaced child shows only for documents that use it",
    [M + "visitors/base_visitor.py", M + "visitors/jinja_visitor.py", M + "visitors/yaml_visitor.py"],
    [("visiting", "visit methods of each node type")], level="exploration",
    observe=["result of the visit"])

PROPS["C22"] = prop(
    "Lists nest by the depth of their markers and are numbered as asked",
    "List items keep their order and text, deeper markers form nested lists, and returning to a shallower level continues the outer list. A list starts at the number given, at 1 by default, and with start=auto at the number that follows the previous ordered list.",
    ["programs"], "all sequences of item depths, kinds and start values",
    "the nesting depends on the whole sequence of depths; tests use a few regular ones",
    [P + "document_processors/list.py"],
    [("recursive construction", "list processor")], level="exploration",
    observe=["list nodes"])

PROPS["C23"] = prop(
    "Any input is processed or refused with a Mau error, never a crash",
    "For every document text the lexer, the parser and the built-in visitors either produce a result or refuse the text with a Mau error that carries a message. No other exception escapes and processing ends.",
    ["inputs"], "all texts of moderate size",
    "crashes hide in malformed input; the tests contain mostly well-formed documents",
    [P, M + "lexers/", M + "visitors/base_visitor.py"],
    [("errors", "MauException raised by lexers and parsers")], level="exploration", seconds=30,
    observe=["exception type"])

PROPS["C24"] = prop(
    "Positions enclose: a merged position is the box, a node contains its children",
    "Merging two positions gives the smallest range of lines and columns that contains both, in the source of the first, and changes neither. The position of every element of a document lies inside the document and contains the positions of its children, and the source file is recorded.",
    ["inputs"], "all pairs of positions; all documents",
    "positions of nested and multi-line elements are computed in many places, tests check single lines",
    [M + "text_buffer.py", P + "document_processors/", P + "text_parser.py"],
    [("merging", "Context.merge_contexts")], keys=["Context.*", "adjust_*", "Token.from_token_list", "Token.to_token_list"],
    bounded="positions of the elements of whole documents are searched with generated documents",
    observe=["context of every node"])

PROPS["C25"] = prop(
    "Command line values and files reach the document unchanged, inputs are kept",
    "Every variable and file given on the command line is available to the document under its namespace and name, with exactly the given value, and everything that was configured before is kept; a file that cannot be processed is reported as a configuration error. Running the command line never changes an input file.",
    ["inputs", "configurations"], "all names, values (also with equal signs), files and namespaces",
    "values that contain the separator and file names without the usual extension are not sampled",
    [M + "__init__.py", M + "cli.py"],
    [("loading", "load_environment_files, load_environment_variables"), ("output name", "main")], level="exploration",
    observe=["environment", "files after the run"])
