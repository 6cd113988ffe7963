# ---------------------------------------------------------------- text buffer
split_field("start_line", "Context", "TextBuffer")
split_field("start_column", "Context", "TextBuffer")
field("TextBuffer", line="int", column="int", start_line="int", start_column="int", source_filename="str | None", lines="list[str]")
macro("spaces(s)", "matches(' *', s)")
macro("one_line(s)", "not ('\\n' in s)")
macro("tb_wf(b)", "b.line >= 0 and b.column >= 0 and implies(b.line > 0, b.start_column == 0) and all(one_line(b.lines[i]) for i in range(0, len(b.lines)))")
contract("TextBuffer.current_line", requires=["self.line >= 0"], returns="str", pure="ite(self.line < len(self.lines), self.lines[self.line], '')")
contract("TextBuffer.eof", requires=["self.line >= 0"], returns="bool",
         pure="len(self.lines) == 0 or self.line >= len(self.lines) or (self.line == len(self.lines) - 1 and self.column >= len(self.lines[self.line]))")
contract("TextBuffer.eol", requires=["self.line >= 0"], returns="bool", pure="self.column >= len(self.current_line)")
contract("TextBuffer.current_char", requires=["self.line >= 0", "self.column >= 0"], returns="str", pure="self.current_line[self.column:self.column + 1]")
contract("TextBuffer.tail", requires=["self.line >= 0", "self.column >= 0"], returns="str", pure="self.current_line[self.column:]")
contract("TextBuffer.position", returns="tuple[int, int]", pure="(self.line + self.start_line, self.column + self.start_column)")
contract("TextBuffer.skip", params=["self", "chars"], types={"chars": "int"}, modifies=["self.column"], ensures=["self.column == old(self.column) + chars"])
contract("TextBuffer.nextline", modifies=["self.line", "self.column", "self.start_column"],
         ensures=["self.line == ite(old(self.line) <= len(self.lines), old(self.line) + 1, old(self.line))", "self.column == 0", "self.start_column == 0"])

# ---------------------------------------------------------------- lexers
# ghost_start: the column offset the lexer was given (the buffer forgets it after the first line)
field("BaseLexer", ghost_start="int", text_buffer="TextBuffer", tokens="list[Token]", _last_position="tuple[int, int] | None", message_handler="Any", environment="Any")
# Where a lexer may stand between two steps.  The document lexer and the condition lexer match whole lines.
macro("lx_wf(l)", "tb_wf(l.text_buffer) and l.text_buffer.line <= len(l.text_buffer.lines) and l.text_buffer.column <= len(l.text_buffer.current_line) and implies(spaces(l.text_buffer.current_line) and l.text_buffer.line < len(l.text_buffer.lines), l.text_buffer.column == 0 or l.text_buffer.eof) and "
      "implies(isinstance(l, DocumentLexer), l.text_buffer.column == 0 or l.text_buffer.eof) and "
      "implies(isinstance(l, ConditionLexer), l.text_buffer.column == 0 or l.text_buffer.column >= len(l.text_buffer.current_line))")
macro("pos_le(l1, c1, l2, c2)", "l1 < l2 or (l1 == l2 and c1 <= c2)")
macro("pos_lt(l1, c1, l2, c2)", "l1 < l2 or (l1 == l2 and c1 < c2)")
# the piece of line L that a position range (with the column offset off) covers
LEX_FRAME = ["self.text_buffer.line", "self.text_buffer.column", "self.text_buffer.start_column"]
contract("BaseLexer._current_char", returns="str", requires=["self.text_buffer.line >= 0", "self.text_buffer.column >= 0"], pure="self.text_buffer.current_char")
contract("BaseLexer._current_line", returns="str", requires=["self.text_buffer.line >= 0"], pure="self.text_buffer.current_line")
contract("BaseLexer._position", returns="tuple[int, int]", pure="self.text_buffer.position")
contract("BaseLexer._tail", returns="str", requires=["self.text_buffer.line >= 0", "self.text_buffer.column >= 0"], pure="self.text_buffer.tail")
contract("BaseLexer._nextline", modifies=LEX_FRAME,
         ensures=["self.text_buffer.line == ite(old(self.text_buffer.line) <= len(self.text_buffer.lines), old(self.text_buffer.line) + 1, old(self.text_buffer.line))",
                  "self.text_buffer.column == 0", "self.text_buffer.start_column == 0"])
macro("stands(b, v)", "b.column + len(v) <= len(b.current_line) and b.current_line[b.column:b.column + len(v)] == v")
# Text that is skipped without a token is blank, and it is what stands there.
contract("BaseLexer._skip", params=["self", "value"], types={"value": "str | None"}, modifies=["self.text_buffer.column"],
         requires=["self.text_buffer.line >= 0", "self.text_buffer.column >= 0",
                   ("blank", "implies(value is not None, spaces(value) and stands(self.text_buffer, value))")],
         ensures=["self.text_buffer.column == old(self.text_buffer.column) + ite(value is None, 0, len(value))",
                  ("blank-piece", "spaces(self.text_buffer.current_line[old(self.text_buffer.column):self.text_buffer.column])")])
# The text of a token is what stands at its position.
macro("tok_text(v)", "ite(v is None, '', v)")
contract("BaseLexer._create_token_and_skip", params=["self", "token_type", "token_value"], types={"token_type": "TokenType", "token_value": "str | None"}, returns="Token", modifies=["self.text_buffer.column"],
         requires=["self.text_buffer.line >= 0", "self.text_buffer.column >= 0",
                   ("source-text", "stands(self.text_buffer, tok_text(token_value))")],
         ensures=["fresh(result) and fresh(result.context)", "result.type is token_type", "result.value == tok_text(token_value)",
                  ("piece", "self.text_buffer.current_line[old(self.text_buffer.column):self.text_buffer.column] == result.value"),
                  "self.text_buffer.column == old(self.text_buffer.column) + len(tok_text(token_value))",
                  ("position", "result.context.start_line == self.text_buffer.line + self.text_buffer.start_line and result.context.end_line == self.text_buffer.line + self.text_buffer.start_line and "
                   "result.context.start_column == old(self.text_buffer.column) + self.text_buffer.start_column and result.context.end_column == self.text_buffer.column + self.text_buffer.start_column and "
                   "result.context.source is self.text_buffer.source_filename")])

macro("blank_at(s, c1, c2)", "c1 <= c2 and spaces(s[c1:c2])")
macro("text_at(s, c1, c2, v)", "c2 == c1 + len(v) and s[c1:c2] == v")
# A token stands in the source: on one line, or (the content of a block) on whole lines.  ls: the lines, g: the column offset of the first line, sl: the number of the first line.
TOKEN = ["context", "start_line/Context", "end_line", "start_column/Context", "end_column", "value", "source"]
macro("off(g, L)", "ite(L == 0, g, 0)")
macro("t_l1(sl, t)", "t.context.start_line - sl")
macro("t_l2(sl, t)", "t.context.end_line - sl")
macro("t_c1(g, sl, t)", "t.context.start_column - off(g, t_l1(sl, t))")
macro("t_c2(g, sl, t)", "t.context.end_column - off(g, t_l2(sl, t))")
pred("in_source(ls: seq[str], g: int, sl: int, src: str | None, t: Token)",
     "t.context.source is src and 0 <= t_l1(sl, t) and t_l1(sl, t) <= t_l2(sl, t) and t_l2(sl, t) < len(ls) and t_c1(g, sl, t) >= 0 and "
     "ite(t_l1(sl, t) == t_l2(sl, t), text_at(ls[t_l1(sl, t)], t_c1(g, sl, t), t_c2(g, sl, t), t.value), "
     "t_c1(g, sl, t) == 0 and t_c2(g, sl, t) == len(ls[t_l2(sl, t)]) and t.value == joined('\\n', ls, t_l1(sl, t), t_l2(sl, t) + 1))", reads=TOKEN)
# Nothing but blank space, and whole comments, between two places
uninterpreted("commented", ["TextBuffer", "int"], "bool")
pred("gap(ls: seq[str], b: TextBuffer, L1: int, c1: int, L2: int, c2: int)",
     "ite(L1 == L2, c1 <= c2 and blank_at(ls[L1], c1, c2), L1 < L2 and (blank_at(ls[L1], c1, len(ls[L1])) or (c1 == 0 and commented(b, L1))) and "
     "all(commented(b, j) for j in range(L1 + 1, L2)) and ite(c2 == 0, True, blank_at(ls[L2], 0, c2)))")
pred("gap_tokens(ls: seq[str], b: TextBuffer, g: int, sl: int, t: Token, u: Token)", "gap(ls, b, t_l2(sl, t), t_c2(g, sl, t), t_l1(sl, u), t_c1(g, sl, u))", reads=TOKEN)
pred("gap_before(ls: seq[str], b: TextBuffer, g: int, sl: int, L: int, c: int, u: Token)", "gap(ls, b, L, c, t_l1(sl, u), t_c1(g, sl, u)) and t_l1(sl, u) == L", reads=TOKEN)
# ... and the place is the end of the token or the start of a line
pred("gap_after(ls: seq[str], b: TextBuffer, g: int, sl: int, t: Token, L: int, c: int)", "gap(ls, b, t_l2(sl, t), t_c2(g, sl, t), L, c) and (c == 0 or (t_l2(sl, t) == L and t_c2(g, sl, t) == c))", reads=TOKEN)
# the text of a step without a token: the blank end of a line, or commented lines
pred("skipped(ls: seq[str], b: TextBuffer, L1: int, c1: int, L2: int, c2: int)",
     "L1 < L2 and c2 == 0 and ite(c1 == 0, all(commented(b, j) for j in range(L1, L2)), L2 == L1 + 1 and blank_at(ls[L1], c1, len(ls[L1])))")
PREDS = ["in_source", "gap", "gap_tokens", "gap_before", "gap_after", "skipped"]
macro("tok_in(l, t)", "in_source(l.text_buffer.lines, l.ghost_start, l.text_buffer.start_line, l.text_buffer.source_filename, t)")
macro("follows(l, t, u)", "gap_tokens(l.text_buffer.lines, l.text_buffer, l.ghost_start, l.text_buffer.start_line, t, u)")
macro("starts(l, L, c, u)", "gap_before(l.text_buffer.lines, l.text_buffer, l.ghost_start, l.text_buffer.start_line, L, c, u)")
macro("ends(l, t, L, c)", "gap_after(l.text_buffer.lines, l.text_buffer, l.ghost_start, l.text_buffer.start_line, t, L, c)")
macro("skips(l, L1, c1, L2, c2)", "skipped(l.text_buffer.lines, l.text_buffer, L1, c1, L2, c2)")

macro("lx_state(l)", "lx_wf(l) and l.tokens is not l.text_buffer.lines and l.text_buffer.start_column == off(l.ghost_start, l.text_buffer.line)")
LEX_NONE = ("none-unchanged", "implies(result is None, self.text_buffer.line == old(self.text_buffer.line) and self.text_buffer.column == old(self.text_buffer.column) and self.text_buffer.start_column == old(self.text_buffer.start_column))")
LEX_PROGRESS = ("progress", "implies(result is not None, pos_lt(old(self.text_buffer.line), old(self.text_buffer.column), self.text_buffer.line, self.text_buffer.column))")
LEX_STATE = ("well-formed", "lx_state(self)")
LEX_TOKENS = ("tokens-are-source", "implies(result is not None, all(tok_in(self, result[k]) for k in range(0, len(result))))")
LEX_BETWEEN = ("nothing-dropped-between", "implies(result is not None, all(follows(self, result[k], result[k + 1]) for k in range(0, len(result) - 1)))")
LEX_BEFORE = ("nothing-dropped-before", "implies(result is not None, ite(len(result) > 0, starts(self, old(self.text_buffer.line), old(self.text_buffer.column), result[0]), "
              "skips(self, old(self.text_buffer.line), old(self.text_buffer.column), self.text_buffer.line, self.text_buffer.column)))")
LEX_AFTER = ("nothing-dropped-after", "implies(result is not None and len(result) > 0, ends(self, result[len(result) - 1], self.text_buffer.line, self.text_buffer.column))")
LEX_NOEOF = ("no-end-token", "implies(result is not None, all(result[k].type is not TokenType.EOF for k in range(0, len(result))))")
LEX_PRE = ["lx_state(self)", "not self.text_buffer.eof", "self.text_buffer.line < len(self.text_buffer.lines)"]
LEX_FRESH = ("fresh", "implies(result is not None, fresh(result))")
LEX_LINE = [LEX_FRESH, LEX_NONE, LEX_PROGRESS, LEX_STATE, LEX_TOKENS, LEX_BETWEEN, LEX_BEFORE, LEX_AFTER, LEX_NOEOF]


contract("BaseLexer._process_eof", returns="list[Token] | None", requires=["lx_wf(self)"], modifies=["self.text_buffer.column"], none_pure=True,
         ensures=[("only-at-the-end", "iff(result is not None, old(self.text_buffer.eof))"), ("unchanged", "self.text_buffer.column == old(self.text_buffer.column)"),
                  ("fresh", "implies(result is not None, fresh(result))"), ("one-end-token", "implies(result is not None, len(result) == 1 and fresh(result[0]) and fresh(result[0].context) and result[0].type is TokenType.EOF and result[0].value == '' and "
                   "result[0].context.start_line == self.text_buffer.line + self.text_buffer.start_line and result[0].context.end_line == result[0].context.start_line and "
                   "result[0].context.start_column == self.text_buffer.column + self.text_buffer.start_column and result[0].context.end_column == result[0].context.start_column and "
                   "result[0].context.source is self.text_buffer.source_filename)")])
contract("BaseLexer._process_empty_line", returns="list[Token] | None", requires=LEX_PRE, modifies=LEX_FRAME, none_pure=True, ensures=LEX_LINE + [("blank-line", "iff(result is not None, spaces(old(self.text_buffer.current_line)))")])
contract("BaseLexer._process_trailing_spaces", returns="list[Token] | None", requires=LEX_PRE + ["not spaces(self.text_buffer.current_line)"], modifies=LEX_FRAME, none_pure=True,
         ensures=LEX_LINE + [("blank-tail", "iff(result is not None, spaces(old(self.text_buffer.tail)))"), ("something-left", "implies(result is None, self.text_buffer.column < len(self.text_buffer.current_line))")])
contract("BaseLexer._process_text", returns="list[Token] | None", requires=LEX_PRE, modifies=LEX_FRAME, none_pure=True, ensures=LEX_LINE + [("always", "result is not None")])

# The functions tried after those: something other than spaces is left on the line.
LEX_REST = LEX_PRE + ["not spaces(self.text_buffer.tail)", "self.text_buffer.column < len(self.text_buffer.current_line)"]
SPACE = ("every-space", "iff(result is not None, old(self.text_buffer.current_char) == ' ')")


def _lexfn(name, *extra):
    contract(name, returns="list[Token] | None", requires=LEX_REST, modifies=LEX_FRAME, none_pure=True, ensures=LEX_LINE + list(extra))


for _cls, _chars in {"TextLexer": "~^_*`()[]\\\"$%", "ArgumentsLexer": "\\=,\"", "PreprocessVariablesLexer": "\\`{}"}.items():
    _lexfn(f"{_cls}._process_literal", ("every-special", f"iff(result is not None, old(self.text_buffer.current_char) in {_chars!r})"))
    _lexfn(f"{_cls}._process_text", ("every-other", f"implies(old(self.text_buffer.current_char) not in {_chars!r}" + (" and old(self.text_buffer.current_char) != ' '" if _cls != "PreprocessVariablesLexer" else "") + ", result is not None)"))
_lexfn("TextLexer._process_whitespace", SPACE)
_lexfn("ArgumentsLexer._process_whitespace", SPACE)
CONDITION = r"[a-zA-Z0-9_\.\+\-]+ *(==|!=) *.*"
_lexfn("ConditionLexer._process_condition", ("every-condition", f"implies(matches({CONDITION!r}, old(self.text_buffer.current_line)), result is not None)"))
for _n in "horizontal_rule control include variable arguments label list header".split():
    _lexfn(f"DocumentLexer._process_{_n}")

# Comments: the only text other than blank space that may go without a token.  `commented(b, j)`: line j was taken by one of the two functions below.
COMMENT = dict(returns="list[Token] | None", requires=LEX_REST, modifies=LEX_FRAME, none_pure=True,
               defines=["implies(result is not None, all(commented(self.text_buffer, j) for j in range(old(self.text_buffer.line), self.text_buffer.line)))"])
contract("DocumentLexer._process_comment", ensures=[LEX_FRESH, LEX_NONE, LEX_PROGRESS, LEX_STATE, LEX_TOKENS, LEX_BETWEEN, LEX_BEFORE, LEX_AFTER,
    ("comment-line", "implies(result is not None, old(self.text_buffer.current_line).startswith('//') and len(result) == 0 and self.text_buffer.line == old(self.text_buffer.line) + 1 and self.text_buffer.column == 0)"),
    ("every-comment", "implies(old(self.text_buffer.current_line).startswith('//'), result is not None)")], **COMMENT)
contract("DocumentLexer._process_multiline_comment", ensures=[LEX_FRESH, LEX_NONE, LEX_PROGRESS, LEX_STATE, LEX_TOKENS, LEX_BETWEEN, LEX_BEFORE, LEX_AFTER,
    ("opened-and-closed", "implies(result is not None, len(result) == 0 and self.text_buffer.line >= old(self.text_buffer.line) + 2 and self.text_buffer.line <= len(self.text_buffer.lines) and self.text_buffer.column == 0 and "
     "self.text_buffer.lines[old(self.text_buffer.line)] == '////' and self.text_buffer.lines[self.text_buffer.line - 1] == '////')"),
    ("ends-at-the-first-close", "implies(result is not None, all(self.text_buffer.lines[j] != '////' for j in range(old(self.text_buffer.line) + 1, self.text_buffer.line - 1)))"),
    ("every-comment", "implies(old(self.text_buffer.current_line) == '////', result is not None)")],
    raises={"MauException": "self.text_buffer.current_line == '////' and all(self.text_buffer.lines[j] != '////' for j in range(self.text_buffer.line + 1, len(self.text_buffer.lines)))"},
    loops=[dict(inv=["tb_wf(self.text_buffer)", "self.text_buffer.column == 0", "self.text_buffer.start_column == 0", "self.text_buffer.line > old(self.text_buffer.line)",
                           "self.text_buffer.line <= len(self.text_buffer.lines)", "all(self.text_buffer.lines[j] != '////' for j in range(old(self.text_buffer.line) + 1, self.text_buffer.line))"],
                decreases="len(self.text_buffer.lines) - self.text_buffer.line")], **COMMENT)

# A block: the delimiter, the lines up to the first line equal to it as one piece of text, the delimiter again.
macro("is_fence(s)", "len(s) == 4 and s[1] == s[0] and s[2] == s[0] and s[3] == s[0]")
macro("whole_line(t, b, L, s)", "t.context.start_line == L + b.start_line and t.context.end_line == L + b.start_line and t.context.start_column == s and t.context.end_column == s + len(b.lines[L]) and t.value == b.lines[L] and t.context.source is b.source_filename")
contract("DocumentLexer._process_block", returns="list[Token] | None", requires=LEX_REST, modifies=LEX_FRAME, none_pure=True, ensures=[LEX_FRESH, LEX_NONE, LEX_PROGRESS, LEX_STATE,
    ("every-block", "implies(is_fence(old(self.text_buffer.current_line)), result is not None)"),
    ("closed", "implies(result is not None, is_fence(old(self.text_buffer.current_line)) and self.text_buffer.line >= old(self.text_buffer.line) + 2 and self.text_buffer.line <= len(self.text_buffer.lines) and self.text_buffer.column == 0 and "
     "self.text_buffer.lines[self.text_buffer.line - 1] == old(self.text_buffer.current_line) and all(self.text_buffer.lines[j] != old(self.text_buffer.current_line) for j in range(old(self.text_buffer.line) + 1, self.text_buffer.line - 1)))"),
    ("delimiters", "implies(result is not None, ite(self.text_buffer.line == old(self.text_buffer.line) + 2, len(result) == 2, len(result) == 3) and fresh(result[0]) and fresh(result[len(result) - 1]) and "
     "whole_line(result[0], self.text_buffer, old(self.text_buffer.line), old(self.text_buffer.start_column)) and whole_line(result[len(result) - 1], self.text_buffer, self.text_buffer.line - 1, 0))"),
    ("content", "implies(result is not None and len(result) == 3, result[1].value == joined('\\n', self.text_buffer.lines, old(self.text_buffer.line) + 1, self.text_buffer.line - 1) and "
     "result[1].context.start_line == old(self.text_buffer.line) + 1 + self.text_buffer.start_line and result[1].context.start_column == 0 and result[1].context.end_line == self.text_buffer.line - 2 + self.text_buffer.start_line and "
     "result[1].context.end_column == len(self.text_buffer.lines[self.text_buffer.line - 2]) and result[1].context.source is self.text_buffer.source_filename)"),
    ("types", "implies(result is not None, result[0].type is TokenType.BLOCK and result[len(result) - 1].type is TokenType.BLOCK and implies(len(result) == 3, result[1].type is TokenType.TEXT))"),
    ("nothing-dropped-inside", "implies(result is not None, ite(len(result) == 2, follows(self, result[0], result[1]), follows(self, result[0], result[1]) and follows(self, result[1], result[2])))"),
    ("delimiters-are-source", "implies(result is not None, tok_in(self, result[0]) and tok_in(self, result[len(result) - 1]))"),
    ("content-is-source", "implies(result is not None and len(result) == 3, tok_in(self, result[1]))"),
    LEX_TOKENS, LEX_BETWEEN, LEX_BEFORE, LEX_AFTER, LEX_NOEOF],
    raises={"MauException": "is_fence(self.text_buffer.current_line) and all(self.text_buffer.lines[j] != self.text_buffer.current_line for j in range(self.text_buffer.line + 1, len(self.text_buffer.lines)))"},
    loops=[dict(inv=["tb_wf(self.text_buffer)", "self.text_buffer.column == 0", "self.text_buffer.start_column == 0", "self.text_buffer.line > old(self.text_buffer.line)",
                           "self.text_buffer.line <= len(self.text_buffer.lines)", "len(text_lines) == self.text_buffer.line - old(self.text_buffer.line) - 1",
                           "all(text_lines[k] == self.text_buffer.lines[old(self.text_buffer.line) + 1 + k] for k in range(0, len(text_lines)))",
                           "all(self.text_buffer.lines[j] != old(self.text_buffer.current_line) for j in range(old(self.text_buffer.line) + 1, self.text_buffer.line))"],
                decreases="len(self.text_buffer.lines) - self.text_buffer.line")])

# ---------------------------------------------------------------- a whole lexing
macro("lx_moved(l)", "implies(l._last_position is not None, pos_lt(l._last_position[0], l._last_position[1], l.text_buffer.line + l.text_buffer.start_line, l.text_buffer.column + l.text_buffer.start_column))")
macro("eof_token(l, t)", "t.type is TokenType.EOF and t.value == '' and l.text_buffer.eof and t.context.source is l.text_buffer.source_filename and "
      "t.context.start_line == l.text_buffer.line + l.text_buffer.start_line and t.context.end_line == t.context.start_line and t.context.start_column == l.text_buffer.column + l.text_buffer.start_column and t.context.end_column == t.context.start_column")
LEX_RAISES = {"TextLexer": {}, "ArgumentsLexer": {}, "PreprocessVariablesLexer": {},
              "ConditionLexer": {"MauException": f"not self.text_buffer.eof and not matches({CONDITION!r}, self.text_buffer.current_line)"},
              "DocumentLexer": {"MauException": "not self.text_buffer.eof and (self.text_buffer.current_line == '////' or is_fence(self.text_buffer.current_line)) and "
                                "all(self.text_buffer.lines[j] != self.text_buffer.current_line for j in range(self.text_buffer.line + 1, len(self.text_buffer.lines)))"}}
OPEN = "implies(not old(self.text_buffer.eof), "
N0 = "old(len(self.tokens))"
LAST = "self.tokens[len(self.tokens) - 1]"
for _cls, _raises in LEX_RAISES.items():
    contract(f"{_cls}._process", requires=["lx_state(self)", "lx_moved(self)"], modifies=LEX_FRAME + ["self._last_position", "list(self.tokens)"], raises=_raises, opaque=PREDS + ["spaces", "one_line"],
             ensures=[("state", "lx_state(self)"),
                      ("moved", OPEN + "lx_moved(self))"),
                      ("end", f"implies(old(self.text_buffer.eof), len(self.tokens) == {N0} + 1 and eof_token(self, {LAST}) and self.text_buffer.line == old(self.text_buffer.line) and self.text_buffer.column == old(self.text_buffer.column))"),
                      ("step", OPEN + "pos_lt(old(self.text_buffer.line), old(self.text_buffer.column), self.text_buffer.line, self.text_buffer.column))"),
                      ("kept", f"len(self.tokens) >= {N0} and all(self.tokens[k] is old(self.tokens[k]) for k in range(0, {N0}))"),
                      ("no-end-token", OPEN + f"all(self.tokens[k].type is not TokenType.EOF for k in range({N0}, len(self.tokens))))"),
                      ("tokens", OPEN + f"all(tok_in(self, self.tokens[k]) for k in range({N0}, len(self.tokens))))"),
                      ("nothing-dropped", OPEN + f"all(follows(self, self.tokens[k], self.tokens[k + 1]) for k in range({N0}, len(self.tokens) - 1)))"),
                      ("nothing-dropped-before", OPEN + f"ite(len(self.tokens) > {N0}, starts(self, old(self.text_buffer.line), old(self.text_buffer.column), self.tokens[{N0}]), "
                       "skips(self, old(self.text_buffer.line), old(self.text_buffer.column), self.text_buffer.line, self.text_buffer.column)))"),
                      ("nothing-dropped-after", OPEN + f"implies(len(self.tokens) > {N0}, ends(self, {LAST}, self.text_buffer.line, self.text_buffer.column)))")])

# The whole text: the tokens before the last one stand in the source in order with nothing but blank space and comments before, between and after them; the last one is the only end token.
pred("gap_first(ls: seq[str], b: TextBuffer, g: int, sl: int, u: Token)", "gap(ls, b, 0, 0, t_l1(sl, u), t_c1(g, sl, u))", reads=TOKEN)
G = "ls: seq[str], b: TextBuffer, g: int, sl: int, "
lemma("gap_joins", G + "t: Token, L: int, c: int, u: Token, src: str | None", ["in_source(ls, g, sl, src, t)", "gap_after(ls, b, g, sl, t, L, c)", "gap_before(ls, b, g, sl, L, c, u)"], ["gap_tokens(ls, b, g, sl, t, u)"], opaque=["blank_at"])
lemma("gap_grows", G + "t: Token, L: int, c: int, L2: int, c2: int, src: str | None", ["in_source(ls, g, sl, src, t)", "gap_after(ls, b, g, sl, t, L, c)", "skipped(ls, b, L, c, L2, c2)"], ["gap_after(ls, b, g, sl, t, L2, c2)"], opaque=["blank_at"])
lemma("gap_leads", G + "L: int, c: int, u: Token", ["gap_before(ls, b, g, sl, L, c, u)", "L >= 0 and c == 0 and all(commented(b, j) for j in range(0, L))"], ["gap_first(ls, b, g, sl, u)"])
lemma("skip_ends", "ls: seq[str], b: TextBuffer, L1: int, c1: int, L2: int, c2: int", ["skipped(ls, b, L1, c1, L2, c2)"], ["c2 == 0 and L1 < L2", "implies(c1 == 0, all(commented(b, j) for j in range(L1, L2)))"])
WHOLE_BY = dict(opaque=PREDS + ["gap_first", "spaces", "one_line", "blank_at", "text_at"], lemmas=["gap_joins", "gap_grows", "gap_leads", "skip_ends"])
macro("leads(l, u)", "gap_first(l.text_buffer.lines, l.text_buffer, l.ghost_start, l.text_buffer.start_line, u)")
macro("lx_ended(l)", "len(l.tokens) > 0 and l.tokens[len(l.tokens) - 1].type is TokenType.EOF")
macro("n_text(l)", "ite(lx_ended(l), len(l.tokens) - 1, len(l.tokens))")
WHOLE = [("tokens-are-source", "all(tok_in(self, self.tokens[k]) and self.tokens[k].type is not TokenType.EOF for k in range(0, n_text(self)))"),
         ("nothing-dropped-between", "all(follows(self, self.tokens[k], self.tokens[k + 1]) for k in range(0, n_text(self) - 1))"),
         ("nothing-dropped-before", "implies(n_text(self) > 0, leads(self, self.tokens[0]))"),
         ("nothing-dropped-after", "ite(n_text(self) > 0, ends(self, self.tokens[n_text(self) - 1], self.text_buffer.line, self.text_buffer.column), "
          "self.text_buffer.column == 0 and all(commented(self.text_buffer, j) for j in range(0, self.text_buffer.line)))"),
         ("end-token", "implies(lx_ended(self), eof_token(self, self.tokens[len(self.tokens) - 1]))")]
PROCESS_RAISES = {"ConditionLexer": {"MauException": f"any(not matches({CONDITION!r}, self.text_buffer.lines[i]) for i in range(0, len(self.text_buffer.lines)))"},
                  "DocumentLexer": {"MauException": "any((self.text_buffer.lines[i] == '////' or is_fence(self.text_buffer.lines[i])) and "
                                    "all(self.text_buffer.lines[j] != self.text_buffer.lines[i] for j in range(i + 1, len(self.text_buffer.lines))) for i in range(0, len(self.text_buffer.lines)))"}}
for _cls in LEX_RAISES:
    contract(f"{_cls}.process", requires=["lx_state(self)", "len(self.tokens) == 0", "self._last_position is None", "self.text_buffer.line == 0", "self.text_buffer.column == 0"],
             modifies=LEX_FRAME + ["self._last_position", "list(self.tokens)"], raises=PROCESS_RAISES.get(_cls, {}), **WHOLE_BY,
             ensures=[("ended", "lx_ended(self)"), ("state", "lx_state(self)")] + WHOLE,
             loops=[dict(inv=["lx_state(self)", "implies(not lx_ended(self), lx_moved(self))"] + [e for _, e in WHOLE],
                         decreases="(len(self.text_buffer.lines) - self.text_buffer.line, len(self.text_buffer.current_line) - self.text_buffer.column, ite(lx_ended(self), 0, 1))")])

# A buffer holds exactly the lines of its text; a lexer starts at the first place of its buffer.
contract("TextBuffer.__init__", params=["self", "text", "start_line", "start_column", "source_filename"], types={"text": "str", "start_line": "int", "start_column": "int", "source_filename": "str | None"},
         modifies=["self.line", "self.column", "self.start_line", "self.start_column", "self.source_filename", "self.lines"],
         ensures=[("start", "self.line == 0 and self.column == 0 and self.start_line == start_line and self.start_column == start_column and self.source_filename is source_filename"),
                  ("lines", "fresh(self.lines) and all(one_line(self.lines[i]) for i in range(0, len(self.lines)))"),
                  ("text", "iff(text == '', len(self.lines) == 0) and text == joined('\\n', self.lines, 0, len(self.lines))")])
contract("BaseLexer.__init__", params=["self", "text_buffer", "message_handler", "environment"], types={"text_buffer": "TextBuffer", "message_handler": "Any", "environment": "Environment | None"},
         modifies=["self.text_buffer", "self.tokens", "self._last_position", "self.message_handler", "self.environment"], defines=["self.ghost_start == text_buffer.start_column"],
         requires=["tb_wf(text_buffer)", "text_buffer.line == 0", "text_buffer.column == 0"],
         ensures=["self.text_buffer is text_buffer", ("no-tokens", "len(self.tokens) == 0 and self._last_position is None"), ("state", "lx_state(self)")])
