// Prefilled standard input: C25

package readline



def rin(r, i) = ghost(rin, data(r), i)
def rpos(r) = ghost(rinpos, data(r))
def nreads(r) = ghost(reads, data(r))

func (*FillableStdin).Read(me, p) -> (n, err)
  requires !held(me.Mutex)
  requires arr(p) != arr(me.buf) || len(me.buf) == 0
  requires data(me.stdin) != data(me.stdinBuffer)
  requires me.stdin != nil
  let k = min(len(p), len(me.buf))
  ensures [C25: pending first] k > 0 ==> n == k && seq(p[:k]) == old(seq(me.buf[:k]))
  ensures [C25: input not read] k > 0 ==> nreads(me.stdin) == old(nreads(me.stdin)) && rpos(me.stdin) == old(rpos(me.stdin))
  ensures [C25: rest kept] k > 0 ==> seq(me.buf) == old(seq(me.buf[k:]))
  ensures [C25: kept for an empty read] k == 0 ==> seq(me.buf) == old(seq(me.buf))
  ensures [C25: data before its error] k > 0 && k < old(len(me.buf)) ==> err == nil
  ensures [C25: error of the prefill] k > 0 ==> err == nil || same(err, old(me.bufErr))
  ensures [C25: input read] old(len(me.buf)) == 0 ==> nreads(me.stdin) == old(nreads(me.stdin)) + 1 && n == ghost(lastn, data(me.stdin)) && tag(err) == ghost(lasterrtag, data(me.stdin)) && data(err) == ghost(lasterrdata, data(me.stdin))
  ensures [C25: input bytes] old(len(me.buf)) == 0 ==> n == rpos(me.stdin) - old(rpos(me.stdin)) && (forall i in 0..n : p[i] == old(rin(me.stdin, rpos(me.stdin) + i)))
  ensures [C25: prefill untouched] rpos(me.stdinBuffer) == old(rpos(me.stdinBuffer))
  ensures [C25: lock] !held(me.Mutex)
  modifies me.buf, me.bufErr, span(p), held(me.Mutex), ghost(rinpos, data(me.stdin)), ghost(reads, data(me.stdin)), ghost(lastn, data(me.stdin)), ghost(lasterrtag, data(me.stdin)), ghost(lasterrdata, data(me.stdin))
  panics C25
  frame C25
  term C25

func (*FillableStdin).ioloop$1() -> ()
  requires s != nil && s.stdinBuffer != nil && !held(s.Mutex)
  inv !held(s.Mutex)
  step [C25: appended] len(s.buf) == old(len(s.buf)) + rpos(s.stdinBuffer) - old(rpos(s.stdinBuffer))
  step [C25: older bytes kept] forall i in 0..old(len(s.buf)) : s.buf[i] == old(s.buf)[i]
  step [C25: bytes in order] forall i in 0..rpos(s.stdinBuffer) - old(rpos(s.stdinBuffer)) : s.buf[old(len(s.buf)) + i] == old(rin(s.stdinBuffer, rpos(s.stdinBuffer) + i))
  step [C25: one read each] nreads(s.stdinBuffer) == old(nreads(s.stdinBuffer)) + 1
  modifies s.buf, s.bufErr, elems(s.buf), held(s.Mutex), ghost(rinpos, data(s.stdinBuffer)), ghost(reads, data(s.stdinBuffer)), ghost(lastn, data(s.stdinBuffer)), ghost(lasterrtag, data(s.stdinBuffer)), ghost(lasterrdata, data(s.stdinBuffer))
  noterm
  frame C25
  panics C25

// what the pipe behind the prefill hands out is taken as it is
extern io.Pipe() -> (r, w)
  ensures r != nil && w != nil && fresh(r) && fresh(w)
  modifies nothing

func NewFillableStdin(stdin) -> (r, w)
  ensures [C25 C23: a reader and its writer] is(r, *FillableStdin) && data(r) != 0 && w != nil
  ensures [C25: input] same(r.(*FillableStdin).stdin, stdin) && len(r.(*FillableStdin).buf) == 0
  ensures [C25: unlocked] !held(r.(*FillableStdin).Mutex)
  ensures [C25: separate] r.(*FillableStdin).stdinBuffer != nil && data(r.(*FillableStdin).stdinBuffer) != data(stdin)
  modifies nothing
  panics C25
  frame C25
