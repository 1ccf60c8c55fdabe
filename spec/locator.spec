package parser

// ---- C01: lines and columns ----
logic nlines(Str,Int) Int
logic lstart(Str,Int) Int
logic rcount(Str) Int
axiom nlines_0(s string) = by(nlines(s, 0) == 0, nlines(s, 0))
axiom nlines_step(s string, i int, j int) = by((j == i + 1 && 0 <= i && i < len(s)) ==> nlines(s, j) == nlines(s, i) + ite(s[i] == '\n', 1, 0), nlines(s, i), nlines(s, j))
axiom lstart_0(s string) = by(lstart(s, 0) == 0, lstart(s, 0))
axiom lstart_step(s string, i int, j int) = by((j == i + 1 && 0 <= i && i < len(s)) ==> lstart(s, j) == ite(s[i] == '\n', j, lstart(s, i)), nlines(s, i), lstart(s, j))
lemma nlines_mono(s string, a int, b int) induct b from a = [C01] by((0 <= a && b <= len(s)) ==> nlines(s, a) <= nlines(s, b), nlines(s, a), nlines(s, b))
lemma nlines_pos(s string, n int) induct n from 0 = [C01] by(n <= len(s) ==> nlines(s, n) >= 0, nlines(s, n))
lemma lstart_same(s string, a int, b int) induct b from a = [C01] by((0 <= a && b <= len(s) && nlines(s, a) == nlines(s, b)) ==> lstart(s, b) == lstart(s, a), lstart(s, a), lstart(s, b))

extern utf8.RuneCountInString
    ensures result == rcount(s)
extern sort.SearchInts
    requires [C01] forall(k, 0, len(a), forall(j, k, len(a), a[k] <= a[j]))
    ensures 0 <= result && result <= len(a)
    ensures forall(k, 0, result, a[k] < x) && forall(k, result, len(a), x <= a[k])
    ensures (result == 0 || a[result - 1] < x) && (result == len(a) || x <= a[result]) && (len(a) == 0 || result > 0 || x <= a[0])
assumption [C01] sort.SearchInts returns the smallest index of a sorted list whose element is not less than the value sought

sealed Locator.lineIndex
define lineno(s, off) = ite(off > len(s), 1 + nlines(s, len(s)), 1 + nlines(s, off))
define lineat(s, n, k, o) = 0 <= o && o <= n && nlines(s, o) == k && lstart(s, o) == o && ite(k == 0, o == 0, s[o - 1] == '\n' && nlines(s, o - 1) == k - 1)
define lineindex(li, s, n) = len(li) == 1 + nlines(s, n) && forall(k, 0, len(li), lineat(s, n, k, li[k]))
invariant (e *Locator)
    [C01] e.lineIndex == nil || len(e.lineIndex) == 1 + nlines(e.string, len(e.string))
    [C01] e.lineIndex == nil || forall(k, 0, len(e.lineIndex), lineat(e.string, len(e.string), k, felem(e.lineIndex, k)))
    [C01] forall(k, 0, len(e.lineIndex), forall(j, k, len(e.lineIndex), felem(e.lineIndex, k) <= felem(e.lineIndex, j)))
func (*Locator).getLineIndex
    modifies e.lineIndex
    ensures [C01] lineindex(result, e.string, len(e.string))
    ensures [C01] forall(k, 0, len(result), forall(j, k, len(result), result[k] <= result[j]))
template lines_so_far(e *Locator, li []int, i int) = [C01] i <= len(e.string) && lineindex(li, e.string, i)
template lines_sorted(e *Locator, li []int, i int) = [C01] forall(k, 0, len(li), forall(j, k, len(li), li[k] <= li[j]))
func (*Locator).LineForOffset
    requires [C01] 0 <= offset
    modifies e.lineIndex
    ensures [C01] result == lineno(e.string, offset)
func (*Locator).PosOnLine
    requires [C01] 0 <= offset && offset <= len(e.string)
    modifies e.lineIndex
    ensures [C01] result == 1 + rcount(e.string[lstart(e.string, offset):offset])
axiom rcount_0() = rcount("") == 0
// the range of a node lies inside the text of its locator (C02 establishes it, C01 relies on it)
invariant (e *Positioned)
    [C02] e.locator != nil && 0 <= e.offset && 0 <= e.length && e.offset + e.length <= len(e.locator.string)
invariant (e *location)
    [C02] e.locator != nil && 0 <= e.byteOffset && e.byteOffset <= len(e.locator.string)
define colno(l, off) = 1 + rcount(l.string[lstart(l.string, off):off])
func (*Positioned).Line
    modifies e.locator.lineIndex
    ensures [C01] result == lineno(e.locator.string, e.offset)
func (*Positioned).Pos
    modifies e.locator.lineIndex
    ensures [C01] result == colno(e.locator, e.offset)
func (*Positioned).File
    ensures [C01] result == e.locator.file
func (*Positioned).String
    ensures [C02] result == e.locator.string[e.offset : e.offset + e.length]
func (*Positioned).ByteOffset
    ensures [C01,C02] result == e.offset
    ensures [C02] 0 <= result && result <= len(e.locator.string)
func (*Positioned).ByteLength
    ensures [C01,C02] result == e.length
    ensures [C02] 0 <= result && e.offset + result <= len(e.locator.string)
func (*location).Line
    modifies l.locator.lineIndex
    ensures [C01] result == lineno(l.locator.string, l.byteOffset)
func (*location).Pos
    modifies l.locator.lineIndex
    ensures [C01] result == colno(l.locator, l.byteOffset)
safety C01 parser.(*Locator).% parser.(*Positioned).Line parser.(*Positioned).Pos parser.(*location).%
safety C02 parser.(*Positioned).%
