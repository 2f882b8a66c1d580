------------------------------- MODULE SeqFold -------------------------------
(* FoldLeft without the other names of SequencesExt. *)
LOCAL INSTANCE SequencesExt
Fold(op(_, _), base, seq) == FoldLeft(op, base, seq)
=============================================================================
