
package runes

func Equal(a, b) -> (res)
  ensures [C07: equal] res <==> seq(a) == seq(b)
  inv forall k in 0..$i : a[k] == b[k]
  modifies nothing
  panics C07 
  frame C07 
  term C07

func IndexAllBck(r, sub) -> (res)
  ensures [C07: range] res == -1 || 0 <= res && res + len(sub) <= len(r)
  ensures [C07: match] res != -1 ==> matchAt(r, sub, res, false)
  ensures [C07: highest] noMatch(r, sub, max(res + 1, 0), len(r) - len(sub) + 1, false)
  modifies nothing
  panics C07
  frame C07
  term C07

  inv noMatch(r, sub, $i + 1, len(r) - len(sub) + 1, false)
  inv forall k in 0..$j : feq(r[$i + k], sub[k], false)

func IndexAll(r, sub) -> (res)
  ensures [C07: range] res == -1 || 0 <= res && res + len(sub) <= len(r)
  ensures [C07: match] res != -1 ==> matchAt(r, sub, res, false)
  ensures [C07: lowest] len(r) > 0 ==> noMatch(r, sub, 0, res == -1 ? len(r) - len(sub) + 1 : res, false)
  modifies nothing
  panics C07
  frame C07
  term C07

  inv noMatch(r, sub, 0, $i, false)
  inv forall k in 0..$j : feq(r[$i + k], sub[k], false)

func Index(r, rs) -> (res)
  ensures [C07 C09: range] res == -1 || 0 <= res && res < len(rs) && rs[res] == r
  ensures [C07 C09: first] forall k in 0..(res == -1 ? len(rs) : res) : rs[k] != r
  inv forall k in 0..$i : rs[k] != r
  modifies nothing
  panics C07 C09
  frame C07 C09
  term C07 C09

func HasPrefix(r, prefix) -> (res)
  ensures [C07 ] res <==> len(prefix) <= len(r) && r[:len(prefix)] == seq(prefix)
  modifies nothing
  panics C07 
  frame C07 
  term C07

func Copy(r) -> (res)
  ensures [C08 C07: content] seq(res) == seq(r)
  ensures [C08: fresh] fresh(res)
  modifies nothing
  panics C07 C08 
  frame C07 C08 
  term C07

func Aggregate(candicate) -> (same_, size)
  requires len(candicate) > 0
  ensures [C08: bound] 0 <= size && forall j in 0..len(candicate) : size <= len(old(candicate[j]))
  ensures [C08: common] forall j in 0..len(candicate) : forall i in 0..size : old(candicate[j])[i] == old(candicate[0])[i]
  ensures [C08: longest] !(forall j in 0..len(candicate) : size < len(old(candicate[j])) && old(candicate[j])[size] == old(candicate[0])[size])
  ensures [C08: same] size > 0 ==> seq(same_) == old(candicate[0])[:size] && fresh(same_)
  ensures [C08: none] size == 0 ==> len(same_) == 0 && forall j in 0..len(candicate) : same(candicate[j], old(candicate[j]))
  ensures [C08: stripped] size > 0 ==> forall j in 0..len(candicate) : seq(candicate[j]) == old(candicate[j])[size:]
  inv forall j in 0..len(candicate) : forall i in 0..$i : i < len(old(candicate[j])) && old(candicate[j])[i] == old(candicate[0])[i]
  inv forall j in 0..len(candicate) : $i <= len(old(candicate[j]))
  inv forall j in 0..$j + 1 : $i < len(candicate[j]) && candicate[j][$i] == candicate[0][$i]
  inv forall j in 0..$j : len(candicate[j]) == len(old(candicate[j])) - $n && forall i in 0..len(candicate[j]) : candicate[j][i] == old(candicate[j])[$n + i]
  inv forall j in $j..len(candicate) : same(candicate[j], old(candicate[j]))
  inv forall j in 0..$j : fresh(candicate[j])
  modifies elems(candicate)
  panics C08
  frame C08
  term C08

func Width(r) -> (res)
  ensures [C09: width] res == rwidth(r)
  modifies nothing
  panics C09
  frame C09
  term C09

func WidthAll(r) -> (length)
  ensures [C09: sum] length == wsum(r)
  inv $j == wsum(r[:$i])
  modifies nothing
  panics C09
  frame C09
  term C09

func Backspace(r) -> (res)
  ensures [C09: count] len(res) == wsum(r)
  ensures [C09: bytes] forall k in 0..len(res) : res[k] == 8
  modifies nothing
  panics C09
  frame C09
  term C09

func ColorFilter(r) -> (res)
  // definition of the scan: cfStart(i) holds where a scan position starts, cfCount(i) counts the runes kept before i
  define cfStart(0) && cfCount(0) == 0
  define forall i in 0..len(r) : at_cf(i) ==> cfEnd(i) == -1 && (forall k in i + 2..len(r) : r[k] != 'm') || i + 2 <= cfEnd(i) && cfEnd(i) < len(r) && r[cfEnd(i)] == 'm' && (forall k in i + 2..cfEnd(i) : r[k] != 'm')
  define forall i in 0..len(r) : at_cf(i) && cfStart(i) && !escAt(r, i) ==> cfStart(i + 1) && cfCount(i + 1) == cfCount(i) + 1
  define forall i in 0..len(r) : at_cf(i) && cfStart(i) && escAt(r, i) && cfEnd(i) == -1 ==> cfStart(i + 1) && cfCount(i + 1) == cfCount(i)
  define forall i in 0..len(r) : at_cf(i) && cfStart(i) && escAt(r, i) && cfEnd(i) != -1 ==> cfStart(cfEnd(i) + 1) && cfCount(cfEnd(i) + 1) == cfCount(i) && (forall k in i + 1..cfEnd(i) + 1 : !cfStart(k))
  shows [C09: length] len(res) == cfCount(len(r))
  shows [C09: kept] forall i in 0..len(r) : cfStart(i) && !escAt(r, i) ==> 0 <= cfCount(i) && cfCount(i) < len(res) && res[cfCount(i)] == r[i]
  ensures [C09: fresh] fresh(res) && len(res) <= len(r)
  inv at_cf($i) && cfStart($i) && len($s) == cfCount($i)
  inv forall k in 0..$i : cfStart(k) && !escAt(r, k) ==> 0 <= cfCount(k) && cfCount(k) < len($s) && $s[cfCount(k)] == r[k]
  inv len($s) <= $i
  inv fresh($s)
  modifies nothing
  panics C09
  frame C09
  term C09
