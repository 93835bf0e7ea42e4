----------------------------- MODULE TsortTrace -----------------------------
(* lib: adds are the calls made, runs the results [n, err, order] of asking for the
   order after the first n of them, several times.  cli: the program's input, output and status.           *)
EXTENDS Tsort, Json, IOUtils
CONSTANT Which
Recs == ndJsonDeserialize(IOEnv.VERIF_RECS)
VARIABLES r, done
Rec == Recs[r]
JInit == r \in 1..Len(Recs) /\ done = FALSE
JNext == ~done /\ done' = TRUE /\ UNCHANGED r
Ordered(err, order, adds) == IF err THEN Impossible(adds) ELSE ValidOrder(order, adds)
Failed(err, order, adds) == err = Impossible(adds) /\ (err => order = <<>>)
Judge(err, order, adds) == IF Which = "order" THEN Ordered(err, order, adds) ELSE Failed(err, order, adds)
Lib == \A i \in 1..Len(Rec.runs) : Judge(Rec.runs[i].err, Rec.runs[i].order, SubSeq(Rec.adds, 1, Rec.runs[i].n))
\* one item to a line
Lines(s) == IF s = <<>> THEN <<>> ELSE LET cut == << 0 >> \o SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i] = NL)
                                        IN [i \in 1..(Len(cut) - 1) |-> SubSeq(s, cut[i] + 1, cut[i + 1] - 1)]
Cli == LET files == FileMap(Rec.files)
           op == IF Rec.args = <<>> THEN Dash ELSE Rec.args[1]
       IN IF ~Readable(files, op) THEN Rec.rc # 0 /\ Rec.out = <<>> /\ Rec.err # <<>>
          ELSE LET ws == Words(Content(files, op, Rec.stdin))
               IN IF (Len(ws) % 2) = 1 THEN Rec.rc # 0 /\ Rec.out = <<>> /\ Rec.err # <<>>
                  ELSE /\ (Rec.out = <<>> \/ Rec.out[Len(Rec.out)] = NL)
                       /\ (Rec.rc # 0) = (Rec.err # <<>>)
                       /\ Judge(Rec.rc # 0, Lines(Rec.out), Adds(ws))
Ok == done => "fatal" \notin DOMAIN Rec /\ (IF "adds" \in DOMAIN Rec THEN Lib ELSE Cli)
Judged == Ok \/ PrintT(ToJson([bad |-> r, d |-> IF "adds" \in DOMAIN Rec THEN [impossible |-> Impossible(Rec.adds)] ELSE [impossible |-> FALSE]]))
=============================================================================
