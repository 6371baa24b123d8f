------------------------------- MODULE C18_fn -------------------------------
\* i = <<keys, classes, offsets, positions>> (the last three a grouping, verified here)
EXTENDS Grouping, FnDriver
Ok(r) ==
  LET q == r.p[1]  v == r.i[1]  wk == r.i[2]  ws == r.i[3]  wi == r.i[4]  G == Len(wk)  o == r.o
      Up(g) == g  Down(g) == G + 1 - g IN
  /\ IsGrouping(v, q, wk, ws, wi)
  /\ o[1][1] = 1
  /\ CASE r.f \in {"groups", "free"} -> Represents(v, q, wk, o[2], o[3], Up) /\ o[4] = ws /\ o[5] = wi
       [] r.f = "groups_down" -> /\ Represents(v, q, wk, o[2], o[3], Down)
                                 /\ Len(o[4]) = G + 1 /\ \A g \in 1..G : o[4][g + 1] - o[4][g] = ws[Down(g) + 1] - ws[Down(g)]
                                 /\ o[4][1] = 0 /\ Len(o[5]) = Len(wi)
                                 /\ \A g \in 1..G : \A j \in 1..(o[4][g + 1] - o[4][g]) : o[5][o[4][g] + j] = wi[ws[Down(g)] + j]
       [] r.f = "counts" -> Represents(v, q, wk, o[2], o[3], Up) /\ o[4] = [g \in 1..G |-> ws[g + 1] - ws[g]]
       [] r.f = "sums" -> Represents(v, q, wk, o[2], o[3], Up) /\ o[4] = [g \in 1..G |-> SumOf(wi, ws[g], ws[g + 1])]
       [] r.f = "maxima" -> Represents(v, q, wk, o[2], o[3], Up) /\ o[4] = [g \in 1..G |-> MaxOf(wi, ws[g], ws[g + 1])]
       [] r.f = "distinct" -> Represents(v, q, wk, o[2], o[3], Up)
       [] r.f = "distinct_down" -> Represents(v, q, wk, o[2], o[3], Down)
       [] r.f = "icounts" -> o[1][2] = r.p[2] /\ o[2] = wk /\ o[3] = [g \in 1..G |-> ws[g + 1] - ws[g]]
       [] r.f = "isums" -> o[1][2] = r.p[2] /\ o[2] = wk /\ o[3] = [g \in 1..G |-> SumOf(wi, ws[g], ws[g + 1])]
       [] r.f = "ifree" -> o[1][2] = r.p[2] /\ o[2] = wk /\ o[4] = ws /\ o[5] = wi
       [] r.f = "idistinct" -> o[2] = wk
       [] OTHER -> FALSE
=============================================================================
