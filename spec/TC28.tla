-------------------------------- MODULE TC28 --------------------------------
EXTENDS Integers, Sequences, FiniteSets, Num, TraceIO, ScriptLib
VARIABLES l, st
Done(ev) == Chk(ev.res = "ok", "script_failed")
(* loaded: image of shape dim, x slowest in row-major order *)
Loads(ev, dim, file) == /\ ev.lshape = dim
                        /\ \A x \in 0..(dim[1] - 1), y \in 0..(dim[2] - 1), z \in 0..(dim[3] - 1) :
                             ev.loaded[(x * dim[2] + y) * dim[3] + z + 1] = file[Vox(dim, x, y, z)]
Rows(ev) == {<<ev.rows[i][1], ev.rows[i][2]>> : i \in 1..Len(ev.rows)}
Step0(s, ev) ==
  [st |-> s,
   fails |->
     CASE ev.k = "crop" ->
            Done(ev) \cup (IF ev.res # "ok" THEN {} ELSE
              Chk(ev.names = <<"crop_" \o ev.pre \o ev.sizes \o ev.post>>, "wrong_file_name")
              \cup Chk(ev.dims = CropSize(ev.dim, ev.f), "declared_size_wrong")
              \cup Chk(ev.out = Cropped(ev.file, ev.dim, ev.f), "not_the_central_block")
              \cup Chk(ev.names = <<>> \/ Loads(ev, CropSize(ev.dim, ev.f), Cropped(ev.file, ev.dim, ev.f)), "does_not_load_as_the_central_block"))
       [] ev.k = "thin" ->
            Done(ev) \cup (IF ev.res # "ok" THEN {} ELSE Chk(ev.out = Thinned(ev.file, ev.dim, ev.f), "not_every_nth_projection"))
       [] ev.k = "stack" ->
            Done(ev) \cup (IF ev.res # "ok" THEN {} ELSE
              Chk(ev.dims = <<ev.dim[1], ev.dim[2], ev.dim[3] * Len(ev.files)>>, "declared_size_wrong")
              \cup Chk(ev.out = Joined(ev.files, 1), "slices_not_in_order")
              \cup Chk(ev.lshape # <<>> => Loads(ev, <<ev.dim[1], ev.dim[2], ev.dim[3] * Len(ev.files)>>, Joined(ev.files, 1)), "does_not_load_as_the_stack"))
       [] ev.k = "refuse" -> Chk(ev.res # "ok", "invalid_accepted") \cup Chk(~ev.wrote, "written_although_invalid")
       [] ev.k = "pairs" ->
            Done(ev) \cup (IF ev.res # "ok" THEN {} ELSE
              Chk(Rows(ev) = {<<ev.refs[p[1]].name, ev.mods[p[2]].name>> : p \in Matches(ev.refs, ev.mods)}, "wrong_pairs")
              \cup Chk(Len(ev.rows) = Cardinality(Matches(ev.refs, ev.mods)), "repeated_pairs")
              \cup Chk(ev.accepted, "batch_reads_other_pairs")
              \cup Chk(ev.copy => {ev.images[i] : i \in 1..Len(ev.images)} =
                         {[n |-> ev.refs[p[1]].name, c |-> ev.refs[p[1]].c] : p \in Matches(ev.refs, ev.mods)}
                         \cup {[n |-> ev.mods[p[2]].name, c |-> ev.mods[p[2]].c] : p \in Matches(ev.refs, ev.mods)}, "wrong_images_copied")
              \cup Chk(~ev.copy => ev.images = <<>>, "copied_without_request")
              \cup Chk(ev.kept, "given_images_changed"))
       [] ev.k = "mat" ->
            Done(ev) \cup (IF ev.res # "ok" THEN {} ELSE
              Chk(ev.lshape = ev.dim, "wrong_shape")
              \cup (IF ev.lshape # ev.dim THEN {} ELSE
                    Chk(\A x \in 0..(ev.dim[1] - 1), y \in 0..(ev.dim[2] - 1), z \in 0..(ev.dim[3] - 1) :
                          IsRatio(ev.out[(x * ev.dim[2] + y) * ev.dim[3] + z + 1], IOf(ev.file[Vox(ev.dim, x, y, z)] - ev.lo),
                                  IOf(ev.hi - ev.lo), 100000, 100), "not_the_image_from_0_to_1")))
       [] OTHER -> {"machinery_unknown_event"}]
R == INSTANCE TraceRun WITH Step <- Step0, St0 <- 0, Trace <- Trace
TSpec == R!TSpec
TDone == R!TDone
=============================================================================
