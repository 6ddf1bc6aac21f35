---------------------------- MODULE MC_EbsdLayout ----------------------------
(* Every order of a selection of fields, known and unknown, on a two pixel file, *)
(* and every order of text columns: writing then reading gives each pixel back.  *)
EXTENDS EbsdFile, TLC
CONSTANTS Extra, N
VARIABLES fs, px
Ids == CrcNeed \cup Extra
Floats == << <<0, 0, 128, 63>>, <<0, 0, 0, 191>>, <<0, 0, 64, 64>>, <<0, 0, 0, 0>>, <<0, 32, 159, 194>>, <<0, 0, 128, 58>> >>
Vals == <<1024, -512, 3072, 0, -81472, 1>>
ASSUME \A i \in DOMAIN Floats : FloatOf(Floats[i]) = Vals[i]
Ix(p, id) == ((p * 5 + id) % Len(Floats)) + 1
Enc(p, id) == IF Width(id) = 1 THEN <<(p * 17 + id) % 256>> ELSE Floats[Ix(p, id)]
Want(p, id) == IF Width(id) = 1 THEN (p * 17 + id) % 256 ELSE Vals[Ix(p, id)]
RECURSIVE RecOf(_, _, _)
RecOf(p, s, k) == IF k > Len(s) THEN <<>> ELSE Enc(p, s[k]) \o RecOf(p, s, k + 1)
RECURSIVE Encode(_, _)
Encode(s, p) == IF p > N THEN <<>> ELSE <<p % 3>> \o RecOf(p, s, 1) \o Encode(s, p + 1)
F == [fields |-> fs, bytes |-> Encode(fs, 1), w |-> N, h |-> 1, step |-> 1, nedx |-> 1,
      phases |-> <<[name |-> "a", laue |-> 11, sg |-> 225, lp |-> <<1, 1, 1, 90000, 90000, 90000>>]>>]
Cols == <<"Phase", "Euler1", "Euler2", "Euler3", "MAD", "BC", "BS">>
\* columns of a text file in the order of the fields (each field names a column)
ColOf(id) == IF id = 3 THEN "Euler1" ELSE IF id = 4 THEN "Euler2" ELSE IF id = 5 THEN "Euler3" ELSE IF id = 6 THEN "MAD" ELSE IF id = 7 THEN "BC"
             ELSE IF id = 8 THEN "BS" ELSE IF id = 10 THEN "Bands" ELSE "Phase"
T == [cols |-> [i \in DOMAIN fs |-> ColOf(fs[i])], rows |-> [p \in 1..N |-> [i \in DOMAIN fs |-> Want(p, fs[i])]]]
Init == fs = <<>> /\ px = 0
Pick == \E id \in Ids \ Ran(fs) : fs' = Append(fs, id) /\ UNCHANGED px
Next == Pick
Spec == Init /\ [][Next]_<<fs, px>>
Ready == CrcNeed \subseteq Ran(fs)
InvLen == Ready => CrcGood(F) /\ ~CrcBad(F)
InvDecode == Ready => LET m == CrcMap(F) IN \A p \in 1..N :
    /\ m.ph[p] = p % 3 /\ \A a \in 1..3 : m.eul[a][p] = Want(p, 2 + a)
    /\ m.bc[p] = Want(p, 7) /\ m.bs[p] = Want(p, 8) /\ m.mad[p] = Want(p, 6)
    /\ 101 \in Ran(fs) => m.edx[1][p] = Want(p, 101)
InvShort == Ready => CrcBad([F EXCEPT !.bytes = SubSeq(@, 1, Len(@) - 1)]) /\ CrcBad([F EXCEPT !.w = N - 1])
InvCols == \A i \in DOMAIN fs : Column(T, ColOf(fs[i])) = [p \in 1..N |-> Want(p, fs[ColAt(T.cols, ColOf(fs[i]))])]
=============================================================================
