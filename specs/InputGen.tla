------------------------------ MODULE InputGen ------------------------------
(* Prints the tokens from which the harness composes streams: all known sequences, and what else there is. *)
EXTENDS Input, Json
VARIABLE done
Others == {<<27>>, <<0>>, <<27, 0>>, <<27, 97>>, <<27, 255>>, <<27, 195>>, <<27, 195, 169>>, <<27, 27, 27>>, <<255>>, <<128>>, <<195, 169>>, <<226, 130, 172>>,
           <<240, 159, 152, 128>>, <<239, 191, 189>>, <<237, 160, 128>>, <<192, 128>>, <<244, 144, 128, 128>>, <<194, 133>>,
           Csi(<<73>>), Csi(<<79>>), Csi(<<73, 65>>), Csi(<<79, 66, 67>>), Csi(<<79, 120>>), <<27>> \o Csi(<<73>>),
           Csi(<<63, 50, 53, 104>>), Csi(<<57, 57, 99>>), Csi(<<49, 32, 113>>), Csi(<<50, 51, 59, 56, 48, 82>>), Csi(<<91>>), Csi(<<>>), Csi(<<49>>), Csi(<<49, 59>>), Csi(<<55, 36, 112>>),
           Csi(<<49, 10>>), Csi(<<49, 255>>),
           Csi(<<77, 32, 33, 33>>), Csi(<<77, 35, 255, 128>>), Csi(<<77, 97, 27, 91>>), Csi(<<77, 33>>), Csi(<<77>>),
           Csi(<<60, 48, 59, 49, 59, 49, 77>>), Csi(<<60, 51, 53, 59, 49, 50, 59, 57, 109>>), Csi(<<60, 65>>), Csi(<<60, 48, 59, 49, 77>>), Csi(<<60, 48, 59, 59, 49, 77>>),
           Csi(<<60, 65, 49, 59, 50, 59, 51, 77>>), Csi(<<60, 120, 120, 49, 48, 59, 50, 59, 51, 109>>), Csi(<<60, 48, 59, 49, 59, 49, 120>>),
           PasteStart \o PasteEnd, PasteStart \o <<104, 105>> \o PasteEnd, PasteEnd, PasteStart \o <<27, 91, 65, 0, 255>> \o PasteEnd, PasteStart \o <<97>> \o PasteStart \o <<98>> \o PasteEnd}
Out(t, k) == PrintT("SCRIPT " \o ToJson([tok |-> t, known |-> k]))
Init == done = FALSE
Next == done = FALSE /\ (\A t \in Sequences : Out(t, TRUE)) /\ (\A t \in Others : Out(t, FALSE)) /\ done' = TRUE
Spec == Init /\ [][Next]_done
=============================================================================
