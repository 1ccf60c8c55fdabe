package pn

// ---- C11: quoting ----
logic qfrom(Str,Int) Str
logic qrune(Int) Str
logic octesc(Int) Str
logic fmt1(Str,Val) Str

axiom qfrom_end(s string, i int) = by(i >= len(s) ==> qfrom(s, i) == "", qfrom(s, i))
axiom qfrom_step(s string, i int) = by((0 <= i && i < len(s)) ==> qfrom(s, i) == qrune(rdec(s, i)) + qfrom(s, i + rsz(s, i)), qfrom(s, i))
axiom qrune_def(c int) = by(qrune(c) == ite(c == '\t', "\\t", ite(c == '\n', "\\n", ite(c == '\r', "\\r", ite(c == '"', "\\\"", ite(c == '\\', "\\\\",
        ite(c < 32, octesc(c), utf8(c))))))), qrune(c))
// assumed: what fmt prints for this format (fmt is outside the module)
axiom fmt_oct(c int) = by((0 <= c && c < 32) ==> fmt1("\\o%3.3o", box(c, rune)) == octesc(c), fmt1("\\o%3.3o", box(c, rune)))

func DoubleQuote
    requires [C11] b != nil
    modifies buf(b)
    ensures [C11] bufstr(b) == old(bufstr(b)) + ("\"" + (qfrom(str, 0) + "\""))
    loop [C11] bufstr(b) + qfrom(str, iter) == old(bufstr(b)) + ("\"" + qfrom(str, 0))

func Fprintf
    trusted
    modifies buf(w.(*bytes.Buffer))
    ensures len(a) == 1 ==> bufstr(w.(*bytes.Buffer)) == old(bufstr(w.(*bytes.Buffer))) + fmt1(format, a[0])
assumption pn.Fprintf appends the text that fmt.Fprintf produces to the buffer and does not fail (bytes.Buffer never reports an error)

// ---- C12: text ----
logic pntext(Val) Str
logic joined(Slice,Int) Str
logic entries(Slice,Int) Str

define isint(v) = is(v, int) || is(v, int8) || is(v, int16) || is(v, int32) || is(v, int64) || is(v, uint) || is(v, uint8) || is(v, uint16) || is(v, uint32) || is(v, uint64)
define isflt(v) = is(v, float32) || is(v, float64)
define fltlit(p) = is(p, *literalPN) && isflt(p.(*literalPN).val)

axiom joined_0(s []PN) = by(joined(s, 0) == "", joined(s, 0))
axiom joined_1(s []PN) = by(joined(s, 1) == pntext(felem(s, 0)), joined(s, 1))
axiom joined_n(s []PN, n int) = by(n >= 2 ==> joined(s, n) == joined(s, n-1) + (" " + pntext(felem(s, n-1))), joined(s, n))
axiom entries_0(s []Entry) = by(entries(s, 0) == "", entries(s, 0))
axiom entries_1(s []Entry) = by(entries(s, 1) == entrytext(felem(s, 0)), entries(s, 1))
axiom entries_n(s []Entry, n int) = by(n >= 2 ==> entries(s, n) == entries(s, n-1) + (" " + entrytext(felem(s, n-1))), entries(s, n))
define entrytext(e) = ":" + (e.(*mapEntry).key + (" " + pntext(e.(*mapEntry).value)))

axiom pntext_list(l *listPN) = by(pntext(box(l)) == "[" + (joined(l.elements, len(l.elements)) + "]"), pntext(box(l)))
axiom pntext_call(l *callPN) = by(pntext(box(l)) == "(" + (l.name + (ite(len(l.elements) > 0, " " + joined(l.elements, len(l.elements)), "") + ")")), pntext(box(l)))
axiom pntext_map(l *mapPN) = by(pntext(box(l)) == "{" + (entries(l.entries, len(l.entries)) + "}"), pntext(box(l)))
axiom pntext_lit(l *literalPN) = by(!isflt(l.val) ==> pntext(box(l)) == ite(l.val == nil, "nil", ite(is(l.val, string), "\"" + (qfrom(l.val.(string), 0) + "\""),
        ite(isint(l.val), fmt1("%d", l.val), ite(is(l.val, bool), fmt1("%t", l.val), fmt1("%v", l.val))))), pntext(box(l)))

iface PN.Format
    requires [C12] b != nil
    modifies buf(b)
    ensures [C12] fltlit(recv) || bufstr(b) == old(bufstr(b)) + pntext(recv)
    defines bufstr(b) == old(bufstr(b)) + pntext(recv)
assumption [C12] what the Format of a float literal appends depends on the value only

func formatElements
    requires [C06] present(elements)
    requires [C12] b != nil && frozen(elements)
    modifies buf(b)
    ensures [C12] bufstr(b) == old(bufstr(b)) + joined(elements, len(elements))

template joined_so_far(b *bytes.Buffer, s []PN, n int) = [C12] bufstr(b) == old(bufstr(b)) + joined(s, n)
template entries_so_far(b *bytes.Buffer, p *mapPN, n int) = [C12] bufstr(b) == old(bufstr(b)) + ("{" + entries(p.entries, n))

// ---- C12: plain data ----
logic isdata(Val,Val) Bool
iface PN.ToData
    defines isdata(recv, result)

func (*literalPN).ToData
    ensures [C12] result == pn.val
func (*listPN).ToData
    ensures [C12] is(result, []interface{}) && len(result.([]interface{})) == len(pn.elements)
    ensures [C12] forall(k, 0, len(pn.elements), isdata(felem(pn.elements, k), result.([]interface{})[k]))
func (*callPN).ToData
    ensures [C12] is(result, map[string]interface{}) && keyset1(result.(map[string]interface{}), "^")
    ensures [C12] is(result.(map[string]interface{})["^"], []interface{})
    ensures [C12] len(result.(map[string]interface{})["^"].([]interface{})) == 1 + len(pn.elements)
    ensures [C12] result.(map[string]interface{})["^"].([]interface{})[0] == box(pn.name)
    ensures [C12] forall(k, 0, len(pn.elements), isdata(felem(pn.elements, k), result.(map[string]interface{})["^"].([]interface{})[1 + k]))
func (*mapPN).ToData
    ensures [C12] is(result, map[string]interface{}) && keyset1(result.(map[string]interface{}), "#")
    ensures [C12] is(result.(map[string]interface{})["#"], []interface{})
    ensures [C12] len(result.(map[string]interface{})["#"].([]interface{})) == 2 * len(pn.entries)
    ensures [C12] forall(k, 0, len(pn.entries), result.(map[string]interface{})["#"].([]interface{})[2 * k] == box(felem(pn.entries, k).(*mapEntry).key))
    ensures [C12] forall(k, 0, len(pn.entries), isdata(felem(pn.entries, k).(*mapEntry).value, result.(map[string]interface{})["#"].([]interface{})[2 * k + 1]))
template listdata_so_far(l []PN, s []interface{}, n int) = [C12] forall(k, 0, n, isdata(felem(l, k), s[k]))
template data_so_far(p *mapPN, s []interface{}, n int) = [C12] len(s) == 2 * n && forall(k, 0, n, s[2 * k] == box(felem(p.entries, k).(*mapEntry).key) && isdata(felem(p.entries, k).(*mapEntry).value, s[2 * k + 1]), felem(p.entries, k))

// ---- C12: construction and conversion ----
func List
    requires [C06] forall(k, 0, len(elements), elements[k] != nil)
    ensures [C12] is(result, *listPN) && result.(*listPN).elements == elements
    ensures [C12,C22] frozen(elements)
func Map
    requires [C06] forall(k, 0, len(entries), is(entries[k], *mapEntry) && rematch(keyPattern, entries[k].(*mapEntry).key))
    ensures [C12] is(result, *mapPN) && result.(*mapPN).entries == entries
    ensures [C12,C22] frozen(entries)
func Literal
    ensures [C12] is(result, *literalPN) && result.(*literalPN).val == val
func Call
    requires [C06] forall(k, 0, len(elements), elements[k] != nil)
    ensures [C12] is(result, *callPN) && result.(*callPN).name == name && result.(*callPN).elements == elements
    ensures [C12,C22] frozen(elements)
func (*listPN).AsCall
    ensures [C12] is(result, *callPN) && result.(*callPN).name == name && result.(*callPN).elements == pn.elements
func (*callPN).AsCall
    ensures [C12] is(result, *callPN) && result.(*callPN).name == name && result.(*callPN).elements == pn.elements
func (*mapPN).AsCall
    ensures [C12] is(result, *callPN) && result.(*callPN).name == name && len(result.(*callPN).elements) == 1 && result.(*callPN).elements[0] == box(pn)
func (*literalPN).AsCall
    ensures [C12] is(result, *callPN) && result.(*callPN).name == name && len(result.(*callPN).elements) == 1 && result.(*callPN).elements[0] == box(pn)
func (*listPN).AsParameters
    ensures [C12] result == pn.elements
func (*callPN).AsParameters
    ensures [C12] result == pn.elements
func (*mapPN).AsParameters
    ensures [C12] len(result) == 1 && result[0] == box(pn)
func (*literalPN).AsParameters
    ensures [C12] len(result) == 1 && result[0] == box(pn)
func (*listPN).WithName
    ensures [C12] is(result, *mapEntry) && result.(*mapEntry).key == name && result.(*mapEntry).value == box(pn)
func (*callPN).WithName
    ensures [C12] is(result, *mapEntry) && result.(*mapEntry).key == name && result.(*mapEntry).value == box(pn)
func (*mapPN).WithName
    ensures [C12] is(result, *mapEntry) && result.(*mapEntry).key == name && result.(*mapEntry).value == box(pn)
func (*literalPN).WithName
    ensures [C12] is(result, *mapEntry) && result.(*mapEntry).key == name && result.(*mapEntry).value == box(pn)
func (*mapEntry).Key
    ensures [C12] result == e.key
func (*mapEntry).Value
    ensures [C12] result == e.value
func ToString
    requires [C06] pn != nil
    ensures [C12] (pn == nil || fltlit(pn)) || result == pntext(pn)
iface PN.AsCall
    ensures [C06] result != nil
    ensures [C12,C22] is(result, *callPN) && result.(*callPN).name == name
    ensures [C12,C22] is(recv, *listPN) ==> result.(*callPN).elements == recv.(*listPN).elements
    ensures [C12,C22] is(recv, *callPN) ==> result.(*callPN).elements == recv.(*callPN).elements
    ensures [C12,C22] !is(recv, *listPN) && !is(recv, *callPN) ==> len(result.(*callPN).elements) == 1 && result.(*callPN).elements[0] == recv
    ensures [C12,C22] frozen(result.(*callPN).elements)
iface PN.WithName
    ensures [C12,C22] is(result, *mapEntry) && result.(*mapEntry).key == name && result.(*mapEntry).value == recv
iface Entry.Value
    ensures [C12,C22] is(recv, *mapEntry) ==> result == recv.(*mapEntry).value
    ensures [C06] result != nil
iface PN.AsParameters
    ensures [C06] forall(k, 0, len(result), result[k] != nil)
    ensures [C12,C22] is(recv, *listPN) ==> result == recv.(*listPN).elements
    ensures [C12,C22] is(recv, *callPN) ==> result == recv.(*callPN).elements
    ensures [C12,C22] !is(recv, *listPN) && !is(recv, *callPN) ==> len(result) == 1 && result[0] == recv

// ---- C06: no crash in what users run on a notation ----
safety C06 pn.(*listPN).% pn.(*callPN).% pn.(*mapPN).% pn.(*literalPN).% pn.(*mapEntry).% pn.List pn.Map pn.Call pn.Literal pn.ToString pn.IsKey pn.formatElements pn.formatEntry pn.DoubleQuote pn.ReportedToPN
define present(l) = forall(k, 0, len(l), felem(l, k) != nil)
invariant (e *listPN)
    [C06] present(e.elements)
invariant (e *mapPN)
    [C06] forall(k, 0, len(e.entries), is(felem(e.entries, k), *mapEntry))
invariant (e *mapEntry)
    [C06] e.value != nil
extern regexp.(*Regexp).FindStringSubmatch params recv,s
    ensures result == nil || len(result) == 1 + subexps(recv)
assumption [C06] regexp.FindStringSubmatch returns nil, or one string for the match and one for every parenthesised group
