------------------------------ MODULE Lifecycle ------------------------------
(* The life of a file run: its configuration is checked, its table read,    *)
(* every interval simulated and only then the output written.  Something    *)
(* may be wrong for good (an item of the configuration, the table, one of   *)
(* its records, the place of the output) or for one attempt (an error or an *)
(* interruption inside a step); what is wrong for one attempt may be gone   *)
(* when the same run is started again.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Steps,      \* data steps of the window
          Attempts    \* how often run() is called at most

Required == {"start_date", "end_date", "input_csv", "elevation"}
Typed == {"elevation", "start_date", "end_date", "time_step", "z_u", "z_T", "z_g", "relative_heights",
          "norm_time_step", "medium_time_step", "small_time_step", "norm_threshold", "medium_threshold",
          "small_threshold", "max_h2o", "max_active", "input_csv", "format_output", "z_s", "rho", "t_s_0", "t_s",
          "h2o_sat", "z_0"}
Columns == {"net_solar", "incoming_thermal", "air_temp", "vapor_pressure", "wind_speed", "soil_temp",
            "precip_mass", "percent_snow", "rho_snow", "precip_temp", "date_time"}
ConfigFaults == {<<"missing", x>> : x \in Required} \cup {<<"type", x>> : x \in Typed}
                  \cup {<<"option", "output_mode">>, <<"option", "time_zone">>, <<"window", "reversed">>,
                        <<"path", "config">>, <<"kind", "config">>}
                  \* lengths of the time steps that do not divide each other or the data's
                  \cup {<<"steps", x>> : x \in {"medium", "small", "longer", "zero", "negative", "data"}}
TableFaults == {<<"column", x>> : x \in Columns} \cup {<<"cell", x>> : x \in Columns}
                  \cup {<<"empty", x>> : x \in Columns}
                  \cup {<<"rows", x>> : x \in {"none", "one", "late", "early", "gap", "double"}}
                  \cup {<<"row", x>> : x \in {"long", "short"}}
                  \cup {<<"path", "table">>, <<"kind", "table">>}
\* wrong in record k: found at the latest when interval k is simulated
RecordFaults == {<<"record", "density">>, <<"record", "cold">>, <<"record", "dry">>}
WriteFaults == {<<"path", "output">>}
Transient == {"error", "interrupt"}

VARIABLES wrong,      \* <<fault, record>>, or <<>>
          passing,    \* for each attempt <<kind, step>> or <<>>
          disk, prior,
          phase,      \* config, table, ready, step, write, over, refused
          attempt, k,
          log         \* <<outcome, disk>> of each attempt, or of the refusal
vars == <<wrong, passing, disk, prior, phase, attempt, k, log>>

None == <<>>
At(i) == 1..i
Is(S) == wrong # None /\ wrong[1] \in S

Init == /\ wrong \in {None} \cup {<<f, 0>> : f \in ConfigFaults \cup TableFaults \cup WriteFaults}
                       \cup {<<f, i>> : f \in RecordFaults, i \in At(Steps)}
        /\ passing \in [At(Attempts) -> {None} \cup {<<t, i>> : t \in Transient, i \in At(Steps)}]
        \* what comes by chance is looked at where nothing else is wrong
        /\ wrong # None => passing = [a \in At(Attempts) |-> None]
        /\ prior \in {"none", "old"} /\ disk = prior
        /\ phase = "config" /\ attempt = 0 /\ k = 0 /\ log = <<>>

Keep == UNCHANGED <<wrong, passing, prior>>

CheckConfig == /\ phase = "config"
               /\ \* or when the model is made from it, before its first step
                  \/ /\ Is(ConfigFaults)
                     /\ phase' = "refused" /\ log' = Append(log, <<"error", disk>>)
                  \/ /\ phase' = "table" /\ UNCHANGED log
               /\ UNCHANGED <<disk, attempt, k>> /\ Keep
ReadTable == /\ phase = "table"
             /\ \* what a cell holds may show only when its record is used
                \/ /\ Is(TableFaults)
                   /\ phase' = "refused" /\ log' = Append(log, <<"error", disk>>)
                \/ /\ Is(TableFaults) => wrong[1][1] \in {"cell", "column", "empty", "row"}
                   /\ phase' = "ready" /\ UNCHANGED log
             /\ UNCHANGED <<disk, attempt, k>> /\ Keep
Start == /\ phase = "ready" /\ attempt < Attempts
         /\ attempt' = attempt + 1 /\ k' = 0
         /\ IF Is(ConfigFaults) THEN phase' = "ready" /\ log' = Append(log, <<"error", disk>>)
            ELSE phase' = "step" /\ UNCHANGED log
         /\ UNCHANGED disk /\ Keep
Fails == /\ phase' = "ready" /\ log' = Append(log, <<"error", disk>>) /\ UNCHANGED <<disk, attempt, k>>
Step == /\ phase = "step" /\ k < Steps
        /\ IF \/ Is(TableFaults)
              \/ Is(RecordFaults) /\ wrong[2] = k + 1
              \/ passing[attempt] # None /\ passing[attempt][2] = k + 1
           THEN Fails
           ELSE k' = k + 1 /\ UNCHANGED <<disk, phase, attempt, log>>
        /\ Keep
Write == /\ phase = "step" /\ k = Steps
         /\ IF Is(WriteFaults) THEN Fails
            ELSE /\ disk' = "new" /\ phase' = "ready" /\ log' = Append(log, <<"done", "new">>)
                 /\ UNCHANGED <<attempt, k>>
         /\ Keep
Over == /\ phase = "ready" /\ attempt = Attempts /\ phase' = "over"
        /\ UNCHANGED <<disk, attempt, k, log>> /\ Keep
Next == CheckConfig \/ ReadTable \/ Start \/ Step \/ Write \/ Over
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* C24
\* results only of a run that has simulated every interval
OnlyComplete == disk = "new" => \E i \in DOMAIN log : log[i][1] = "done"
Whole == [][disk' # disk => k = Steps /\ ~Is(ConfigFaults \cup TableFaults \cup RecordFaults)]_vars
\* an attempt that fails leaves what was there
Untouched == \A i \in DOMAIN log : log[i][1] = "error" =>
               log[i][2] = IF i = 1 THEN prior ELSE log[i - 1][2]
\* what is wrong is noticed: no success with anything wrong, and no failure without
Noticed == \A i \in DOMAIN log : log[i][1] = "done" <=> (wrong = None /\ passing[i] = None)
\* no step before the configuration is found right
RefusedFirst == Is(ConfigFaults) => k = 0 /\ phase # "step"
\* a failed attempt does not spoil the next
Recovers == \A i \in DOMAIN log : wrong = None /\ passing[i] = None => log[i] = <<"done", "new">>
Ends == <>(phase \in {"over", "refused"})
\* one line for each outcome, whenever the fault is found
Emit == phase \in {"over", "refused"} =>
          PrintT("@@" \o ToString(<<"CASE", wrong, passing, prior, log>>))
==============================================================================
