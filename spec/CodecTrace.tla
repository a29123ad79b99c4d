----------------------------- MODULE CodecTrace -----------------------------
(* Recorded compress/decompress calls against Codec. *)
EXTENDS Codec, Adpcm, TraceLib
Step(e) ==
  \/ e.ev = "begin"
  \/ e.ev = "comp" /\ CompressOk(e)
  \* small data with its code bytes: the code is decoded here
  \/ e.ev = "sparse" /\ \/ e.code = <<>>
                        \/ SparseDecode(e.code, Len(e.raw), 128, 255) = e.raw
  \* audio: what comes back is what the code says, and the code says nearly what was put in
  \/ e.ev = "audio" /\ \E run \in {TLCEval(AdpcmRun(e.code, e.channels, Len(e.raw)))} : TRUE = (e.ok /\ e.out = run.out /\ Near(e.raw, run))
  \* any bytes as audio: whole samples as the code says, or refused when the head is not whole
  \/ e.ev = "listen" /\ TRUE = (IF Whole(e.code, e.channels)
                                THEN e.ok /\ e.out = AdpcmRun(e.code, e.channels, e.want).out
                                ELSE ~e.ok \/ e.out = <<>>)
  \/ e.ev = "raw" /\ e.ok /\ e.out = e.data /\ e.outn = e.n     \* method 0 returns the bytes as they are
TraceInit == TInit
TraceNext == \/ TLive /\ Step(TE) /\ TAccept("")
             \/ TLive /\ ~Step(TE) /\ TReject
             \/ TSkip
             \/ TFinish
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
