// Rune helpers: C07 (comparison, search), C08 (aggregation), C09 (widths)

def lower(c) = ('A' <= c && c <= 'Z') ? c + 32 : c
def feq(a, b, fold) = a == b || fold && lower(a) == lower(b)
def matchAt(r, sub, i, fold) = forall k in 0..len(sub) : feq(r[i + k], sub[k], fold)
def noMatch(r, sub, lo, hi, fold) = forall i in lo..hi : !matchAt(r, sub, i, fold)
def isSpaceR(c) = (c == 32 || 9 <= c && c <= 13 || c == 133 || c == 160) || c > 255 && inT(unicode.White_Space, c)

package readline

func (Runes).EqualRune(me, a, b, fold) -> (res)
  ensures [C07] res <==> feq(a, b, fold)
  modifies nothing
  panics C07
  frame C07
  term C07

func (Runes).EqualRuneFold(me, a, b) -> (res)
  ensures [C07] res <==> feq(a, b, true)
  modifies nothing
  panics C07
  frame C07
  term C07

func (Runes).EqualFold(me, a, b) -> (res)
  ensures [C07: equalfold] res <==> len(a) == len(b) && matchAt(a, b, 0, true)
  inv forall k in 0..$i : feq(a[k], b[k], true)
  modifies nothing
  panics C07
  frame C07
  term C07

func (Runes).Equal(me, a, b) -> (res)
  ensures [C07 C15 C17: equal] res <==> seq(a) == seq(b)
  inv forall k in 0..$i : a[k] == b[k]
  modifies nothing
  panics C07 C15 C17
  frame C07 C15 C17
  term C07

func (Runes).IndexAllBckEx(me, r, sub, fold) -> (res)
  ensures [C07 C17: range] res == -1 || 0 <= res && res + len(sub) <= len(r)
  ensures [C07 C17: match] res != -1 ==> matchAt(r, sub, res, fold)
  ensures [C07 C17: highest] noMatch(r, sub, max(res + 1, 0), len(r) - len(sub) + 1, fold)
  inv noMatch(r, sub, $i + 1, len(r) - len(sub) + 1, fold)
  inv forall k in 0..$j : feq(r[$i + k], sub[k], fold)
  modifies nothing
  panics C07 C17
  frame C07 C17
  term C07 C17

func (Runes).IndexAllBck(me, r, sub) -> (res)
  ensures [C07: range] res == -1 || 0 <= res && res + len(sub) <= len(r)
  ensures [C07: match] res != -1 ==> matchAt(r, sub, res, false)
  ensures [C07: highest] noMatch(r, sub, max(res + 1, 0), len(r) - len(sub) + 1, false)
  modifies nothing
  panics C07
  frame C07
  term C07

func (Runes).IndexAll(me, r, sub) -> (res)
  ensures [C07: range] res == -1 || 0 <= res && res + len(sub) <= len(r)
  ensures [C07: match] res != -1 ==> matchAt(r, sub, res, false)
  ensures [C07: lowest] len(r) > 0 ==> noMatch(r, sub, 0, res == -1 ? len(r) - len(sub) + 1 : res, false)
  modifies nothing
  panics C07
  frame C07
  term C07

func (Runes).IndexAllEx(me, r, sub, fold) -> (res)
  ensures [C07 C17: range] res == -1 || 0 <= res && res + len(sub) <= len(r)
  ensures [C07 C17: match] res != -1 ==> matchAt(r, sub, res, fold)
  ensures [C07 C17: lowest] len(r) > 0 ==> noMatch(r, sub, 0, res == -1 ? min(len(r), len(r) - len(sub) + 1) : res, fold)
  inv noMatch(r, sub, 0, $i, fold)
  inv forall k in 0..$j : feq(r[$i + k], sub[k], fold)
  modifies nothing
  panics C07 C17
  frame C07 C17
  term C07 C17

func (Runes).Index(me, r, rs) -> (res)
  ensures [C07 C09: range] res == -1 || 0 <= res && res < len(rs) && rs[res] == r
  ensures [C07 C09: first] forall k in 0..(res == -1 ? len(rs) : res) : rs[k] != r
  inv forall k in 0..$i : rs[k] != r
  modifies nothing
  panics C07 C09
  frame C07 C09
  term C07 C09

func (Runes).HasPrefixFold(me, r, prefix) -> (res)
  ensures [C07] res <==> len(prefix) <= len(r) && matchAt(r, prefix, 0, true)
  modifies nothing
  panics C07
  frame C07
  term C07

func (Runes).HasPrefix(me, r, prefix) -> (res)
  ensures [C07 C11 C12] res <==> len(prefix) <= len(r) && r[:len(prefix)] == seq(prefix)
  modifies nothing
  panics C07 C11 C12
  frame C07 C11 C12
  term C07 C11 C12

func (Runes).Copy(me, r) -> (res)
  ensures [C06 C08 C14 C15 C17 C07: content] seq(res) == seq(r)
  ensures [C06 C08 C14 C15 C17: fresh] fresh(res)
  ensures [C14: never nil] ref(res) != 0
  modifies nothing
  panics C06 C07 C08 C14 C15 C17
  frame C06 C07 C08 C14 C15 C17
  term C07

func (Runes).TrimSpaceLeft(me, in) -> (res)
  ensures [C07 C11: suffix] len(res) <= len(in) && same(res, in[len(in) - len(res):])
  ensures [C07 C11] at_tw(len(res))
  ensures [C07 C11: spaces] forall k in 0..len(in) - len(res) : isSpaceR(in[k])
  ensures [C07 C11: first] 0 < len(res) ==> !isSpaceR(res[0])
  inv forall k in 0..$i : isSpaceR(in[k])
  modifies nothing
  panics C07 C11
  frame C07 C11
  term C07 C11

func (Runes).Aggregate(me, candicate) -> (same_, size)
  requires len(candicate) > 0
  ensures [C08: bound] 0 <= size && forall j in 0..len(candicate) : size <= len(old(candicate[j]))
  ensures [C08: common] forall j in 0..len(candicate) : forall i in 0..size : old(candicate[j])[i] == old(candicate[0])[i]
  ensures [C08: longest] !(forall j in 0..len(candicate) : size < len(old(candicate[j])) && old(candicate[j])[size] == old(candicate[0])[size])
  ensures [C08: same] size > 0 ==> seq(same_) == old(candicate[0])[:size] && fresh(same_)
  ensures [C08: none] size == 0 ==> len(same_) == 0 && forall j in 0..len(candicate) : same(candicate[j], old(candicate[j]))
  ensures [C08: stripped] size > 0 ==> forall j in 0..len(candicate) : seq(candicate[j]) == old(candicate[j])[size:]
  inv forall j in 0..len(candicate) : forall i in 0..$i : i < len(old(candicate[j])) && old(candicate[j])[i] == old(candicate[0])[i]
  inv forall j in 0..len(candicate) : $i <= len(old(candicate[j]))
  inv forall j in 0..$j + 1 : $i < len(candicate[j]) && candicate[j][$i] == candicate[0][$i]
  inv forall j in 0..$j : len(candicate[j]) == len(old(candicate[j])) - $n && forall i in 0..len(candicate[j]) : candicate[j][i] == old(candicate[j])[$n + i]
  inv forall j in $j..len(candicate) : same(candicate[j], old(candicate[j]))
  inv forall j in 0..$j : fresh(candicate[j])
  modifies elems(candicate)
  panics C08
  frame C08
  term C08

func (Runes).Width(me, r) -> (res)
  ensures [C09: width] res == rwidth(r)
  modifies nothing
  panics C09
  frame C09
  term C09

func (Runes).WidthAll(me, r) -> (length)
  ensures [C09: sum] length == wsum(r)
  inv $j == wsum(r[:$i])
  modifies nothing
  panics C09
  frame C09
  term C09

func (Runes).Backspace(me, r) -> (res)
  requires TabWidth >= 0
  ensures [C09: count] len(res) == wsum(r)
  ensures [C09: bytes] forall k in 0..len(res) : res[k] == 8
  modifies nothing
  panics C09
  frame C09
  term C09

// escAt: an ESC [ starts at i; cfEnd(i): the first m after it, or -1
def escAt(r, i) = r[i] == 27 && i + 1 < len(r) && r[i + 1] == '['
uf cfStart bool
uf cfCount
uf cfEnd
uf at_cf bool

func (Runes).ColorFilter(me, r) -> (res)
  // definition of the scan: cfStart(i) holds where a scan position starts, cfCount(i) counts the runes kept before i
  define cfStart(0) && cfCount(0) == 0
  define forall i in 0..len(r) : at_cf(i) ==> cfEnd(i) == -1 && (forall k in i + 2..len(r) : r[k] != 'm') || i + 2 <= cfEnd(i) && cfEnd(i) < len(r) && r[cfEnd(i)] == 'm' && (forall k in i + 2..cfEnd(i) : r[k] != 'm')
  define forall i in 0..len(r) : at_cf(i) && cfStart(i) && !escAt(r, i) ==> cfStart(i + 1) && cfCount(i + 1) == cfCount(i) + 1
  define forall i in 0..len(r) : at_cf(i) && cfStart(i) && escAt(r, i) && cfEnd(i) == -1 ==> cfStart(i + 1) && cfCount(i + 1) == cfCount(i)
  define forall i in 0..len(r) : at_cf(i) && cfStart(i) && escAt(r, i) && cfEnd(i) != -1 ==> cfStart(cfEnd(i) + 1) && cfCount(cfEnd(i) + 1) == cfCount(i) && (forall k in i + 1..cfEnd(i) + 1 : !cfStart(k))
  shows [C09: length] len(res) == cfCount(len(r))
  shows [C09: kept] forall i in 0..len(r) : cfStart(i) && !escAt(r, i) ==> 0 <= cfCount(i) && cfCount(i) < len(res) && res[cfCount(i)] == r[i]
  ensures [C09: fresh] fresh(res) && len(res) <= len(r)
  inv at_cf($i) && cfStart($i) && len($s) == cfCount($i)
  inv forall k in 0..$i : cfStart(k) && !escAt(r, k) ==> 0 <= cfCount(k) && cfCount(k) < len($s) && $s[cfCount(k)] == r[k]
  inv len($s) <= $i
  inv fresh($s)
  modifies nothing
  panics C09
  frame C09
  term C09
