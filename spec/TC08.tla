-------------------------------- MODULE TC08 --------------------------------
EXTENDS Naturals, Sequences, FiniteSets, Num, TraceIO
VARIABLES l, st
RawType(tok) == CASE tok \in {"8bit", "8ubit"} -> "uint8" [] tok \in {"16bit", "16ubit"} -> "uint16"
                  [] tok \in {"32bit", "32ubit"} -> "uint32" [] tok = "16fbit" -> "float16"
                  [] tok = "32fbit" -> "float32" [] tok = "64fbit" -> "float64" [] OTHER -> "unsupported"
MhdType(tok) == CASE tok = "MET_UCHAR" -> "uint8" [] tok = "MET_USHORT" -> "uint16" [] tok = "MET_UINT" -> "uint32"
                  [] tok = "MET_FLOAT" -> "float32" [] tok = "MET_DOUBLE" -> "float64" [] OTHER -> "unsupported"
Type(ev) == IF ev.form = "raw" THEN RawType(ev.tok) ELSE MhdType(ev.tok)
Bytes(t) == CASE t = "uint8" -> 1 [] t \in {"uint16", "float16"} -> 2 [] t = "float64" -> 8 [] OTHER -> 4
Count(d) == d[1] * d[2] * d[3]
Accept(ev) == /\ ev.hassize /\ Type(ev) # "unsupported"
              /\ ev.bytes = Count(ev.dim) * Bytes(Type(ev))
Faithful(ev) ==
  \A x \in 0..(ev.dim[1] - 1), y \in 0..(ev.dim[2] - 1), z \in 0..(ev.dim[3] - 1) :
    ev.out[(x * ev.dim[2] + y) * ev.dim[3] + z + 1] = ev.file[x + ev.dim[1] * y + ev.dim[1] * ev.dim[2] * z + 1]
Step0(s, ev) ==
  [st |-> s,
   fails |->
     CASE ev.k = "binary" ->
            IF Accept(ev)
            THEN Chk(ev.res = "ok", "valid_file_rejected")
                 \cup (IF ev.res # "ok" THEN {} ELSE
                       Chk(ev.shape = ev.dim, "wrong_shape")
                       \cup Chk(ev.dtype = Type(ev), "wrong_type")
                       \cup Chk(ev.shape = ev.dim /\ Len(ev.out) = Count(ev.dim) => Faithful(ev), "wrong_voxels"))
            ELSE Chk(ev.res # "ok", "invalid_file_accepted")
                 \cup Chk(ev.value_error => ev.res \in {"ok", "ValueError"}, "wrong_error")
       [] ev.k = "picture" ->
            Chk(ev.res = "ok", "valid_file_rejected")
            \cup Chk(ev.res = "ok" => ev.shape = ev.wshape /\ ev.dtype = ev.wdtype /\ ev.out = ev.file, "wrong_pixels")
       [] ev.k = "unsupported" -> Chk(ev.res = "ValueError", "unsupported_input_accepted")
       [] ev.k = "plain" ->
            IF ev.ndim \in {2, 3} THEN Chk(ev.res = "ok", "valid_image_rejected")
            ELSE Chk(ev.res = "ValueError", "wrong_dimensionality_accepted")
       [] OTHER -> {"machinery_unknown_event"}]
R == INSTANCE TraceRun WITH Step <- Step0, St0 <- 0, Trace <- Trace
TSpec == R!TSpec
TDone == R!TDone
=============================================================================
