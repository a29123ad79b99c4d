------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* Compression: which methods have a compressor, what a compressed form     *)
(* looks like, and the zero-run ("sparse") code itself.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Lossless == {2, 8, 16, 18, 32}                    \* zlib, PKWare, bzip2, LZMA, sparse
AudioBase == {64, 128}                            \* ADPCM mono, stereo
AudioTail == {0, 2, 8, 16, 32}                    \* what may follow the audio step
Audio == {a + t : a \in AudioBase, t \in AudioTail}
HasCompressor(m) == m = 0 \/ m \in Lossless \/ m \in Audio
SampleBytes(m) == IF m >= 128 THEN 4 ELSE 2       \* one sample of every channel

(* The zero-run code.  Control byte below Lim: that many literal bytes      *)
(* follow; Lim + n: n zeros, n <= MaxRun; EndMark ends the stream.           *)
(* In the library Lim = 128, MaxRun = 126, EndMark = 255.                    *)
SparseStep(acc, b, Lim, EndMark) ==
  IF acc.end \/ acc.bad THEN acc
  ELSE IF acc.lit > 0 THEN [acc EXCEPT !.out = Append(@, b), !.lit = @ - 1]
  ELSE IF b = EndMark THEN [acc EXCEPT !.end = TRUE]
  ELSE IF b >= Lim THEN [acc EXCEPT !.out = @ \o [k \in 1..(b - Lim) |-> 0]]
  ELSE [acc EXCEPT !.lit = b]
SparseDec(s, Lim, EndMark) ==
  FoldLeft(LAMBDA a, b : SparseStep(a, b, Lim, EndMark), [out |-> <<>>, lit |-> 0, end |-> FALSE, bad |-> FALSE], s)
\* a reader pads with zeros up to the known size
SparseDecode(s, n, Lim, EndMark) ==
  LET o == SparseDec(s, Lim, EndMark).out IN IF Len(o) < n THEN o \o [k \in 1..(n - Len(o)) |-> 0] ELSE o

(* How a stored form is recognised: shorter than the data it stands for     *)
(* means method byte and code, equal length means the data itself.          *)
Unchanged(e) == e.outn = e.n /\ e.out = e.data
Shrunk(e) == e.outn < e.n /\ e.first = e.m
ReadsBack(e) == e.back.ok /\ e.back.n = e.n /\ e.back.data = e.data

CompressOk(e) ==
  \/ e.m = 0 /\ e.ok /\ Unchanged(e)
  \/ e.m \in Lossless /\ e.ok /\ (Unchanged(e) \/ (Shrunk(e) /\ ReadsBack(e)))
  \/ e.m \in Audio /\ e.n % SampleBytes(e.m) = 0 /\ e.ok /\ (Unchanged(e) \/ (Shrunk(e) /\ e.back.ok /\ e.back.n = e.n))
  \/ e.m \in Audio /\ e.n % SampleBytes(e.m) # 0 /\ (e.ok => (Unchanged(e) \/ (Shrunk(e) /\ e.back.ok /\ e.back.n = e.n)))
  \/ ~HasCompressor(e.m) /\ (e.ok => e.n = 0 /\ e.outn = 0)
=============================================================================
