// Prefix completion: C11

package readline

// isNode(c): c is a node of the completer tree; isChild(c): a child of one; isName: a name such a child reports (a
// slice: array, offset, length); height: the height of a node in the tree
uf isNode bool
uf isChild bool
uf isName bool
uf height
uf at_tw bool

// storage the application knows: it existed before, or the application has just made it
def theirs(s) = arr(s) == 0 || before(arr(s)) || fresh(ref(s))
def node(c) = tag(c) != 0 && isNode(data(c)) && height(data(c)) >= 0
def childOf(c, p) = node(c) && isChild(data(c)) && height(data(c)) < height(data(p))

// the application's tree: finite, without nil nodes; reporting names and children does not touch package memory
iface PrefixCompleterInterface.GetChildren(c) -> (res)
  requires node(c)
  assume theirs(res) && forall i in 0..len(res) : childOf(res[i], c)
  modifies nothing

iface PrefixCompleterInterface.GetName(c) -> (res)
  requires node(c)
  assume theirs(res) && (isChild(data(c)) ==> isName(arr(res), off(res), len(res)))
  modifies nothing

iface DynamicPrefixCompleterInterface.IsDynamic(c) -> (res)
  modifies nothing

iface DynamicPrefixCompleterInterface.GetDynamicNames(c, line) -> (res)
  requires node(c)
  assume theirs(res) && (forall i in 0..len(res) : theirs(res[i]))
  assume isChild(data(c)) ==> forall i in 0..len(res) : isName(arr(res[i]), off(res[i]), len(res[i]))
  modifies nothing

// the typed word is the text of length m before the cursor
// x completes it: the rest of a name that starts with the word
def rest(x, line, pos, a, o, l) = arr(x) == a && off(x) + len(x) == o + l && len(x) > 0 && len(x) <= l && l - len(x) <= pos && line[pos - (l - len(x)):pos] == slice("rune", a, o, l - len(x))
// x is a whole name the word starts with
def whole(x, line, pos, a, o, l) = arr(x) == a && off(x) == o && len(x) == l && exists m in l + 1..pos + 1 : at_tw(m) && line[pos - m:pos - m + l] == slice("rune", a, o, l)
// x is the separator, after a word that is a name
def space(x, line, pos, a, o, l) = len(x) == 1 && x[0] == ' ' && l <= pos && line[pos - l:pos] == slice("rune", a, o, l)
def genuine(x, line, pos) = exists a, o, l : isName(a, o, l) && alloc(typed("*int", a)) && (rest(x, line, pos, a, o, l) || whole(x, line, pos, a, o, l) || space(x, line, pos, a, o, l))

def names(s) = forall k in 0..len(s) : isName(arr(s[k]), off(s[k]), len(s[k])) && alloc(typed("*int", arr(s[k])))

func doInternal(p, line, pos, origLine) -> (newLine, offset)
  requires node(p) && 0 <= pos && pos <= len(line)
  decreases height(data(p))
  marks
  ensures [C11: shared length] 0 <= offset && offset <= pos
  ensures [C11: genuine] forall i in 0..len(newLine) : at_tw(i) ==> genuine(newLine[i], line, pos)
  inv 0 <= $i && $i <= pos
  inv forall i in 0..len($s) : at_tw(i) ==> genuine($s[i], line, pos)
  inv fresh($s)
  inv names($a)
  inv len($s) > 0 ==> childOf($x, p)
  modifies nothing
  panics C11
  frame C11
  term C11

func Do(p, line, pos) -> (newLine, offset)
  marks
  requires node(p) && 0 <= pos && pos <= len(line)
  ensures [C11: shared length] 0 <= offset && offset <= pos
  ensures [C11: genuine] forall i in 0..len(newLine) : at_tw(i) ==> genuine(newLine[i], line, pos)
  modifies nothing
  panics C11
  frame C11
  term C11

func (*PrefixCompleter).Do(p, line, pos) -> (newLine, offset)
  marks
  requires isNode(p) && height(p) >= 0 && 0 <= pos && pos <= len(line)
  ensures [C11: shared length] 0 <= offset && offset <= pos
  ensures [C11: genuine] forall i in 0..len(newLine) : at_tw(i) ==> genuine(newLine[i], line, pos)
  modifies nothing
  panics C11
  frame C11
  term C11

func (*PrefixCompleter).GetName(p) -> (res)
  ensures [C11: the name] same(res, p.Name)
  modifies nothing
  panics C11
  frame C11
  term C11

func (*PrefixCompleter).GetChildren(p) -> (res)
  ensures [C11: the children] same(res, p.Children)
  modifies nothing
  panics C11
  frame C11
  term C11

func (*PrefixCompleter).IsDynamic(p) -> (res)
  ensures [C11: dynamic] res <==> p.Dynamic
  modifies nothing
  panics C11
  frame C11
  term C11

// the application's callback does not touch package memory
iface field.PrefixCompleter.Callback(line) -> (res)
  modifies nothing

func (*PrefixCompleter).GetDynamicNames(p, line) -> (names)
  requires p.Callback != nil
  ensures [C11: fresh names] fresh(names) && forall k in 0..len(names) : fresh(ref(names[k])) && len(names[k]) > 0 && names[k][len(names[k]) - 1] == ' '
  inv fresh($s)
  inv forall k in 0..len($s) : fresh(ref($s[k])) && len($s[k]) > 0 && $s[k][len($s[k]) - 1] == ' '
  modifies nothing
  panics C11
  frame C11
  term C11

func PcItem(name, pc) -> (res)
  ensures [C11: item] fresh(res) && fresh(ref(res.Name)) && seq(res.Name) == name ++ [' '] && same(res.Children, pc) && !res.Dynamic
  modifies nothing
  panics C11
  frame C11
  term C11

func NewPrefixCompleter(pc) -> (res)
  ensures [C11: root] fresh(res) && fresh(ref(res.Name)) && seq(res.Name) == [' '] && same(res.Children, pc) && !res.Dynamic
  modifies nothing
  panics C11
  frame C11
  term C11

func PcItemDynamic(callback, pc) -> (res)
  ensures [C11: dynamic item] fresh(res) && len(res.Name) == 0 && same(res.Children, pc) && res.Dynamic && res.Callback == callback
  modifies nothing
  panics C11
  frame C11
  term C11
