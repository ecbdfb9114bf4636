------------------------------- MODULE Output -------------------------------
(* What a run leaves on disk: the output file (dimensions, coordinates, units *)
(* and records), restart files, and what remains after the process is killed. *)
EXTENDS Num, Integers, Sequences, FiniteSets

(* ----------------------------------------------------- layout of the file   *)
\* the dimensions of the variables of the model, in the order of the file
Plane    == <<"time", "n", "s">>
Fraction == Plane \o <<"fractions">>
Layer    == Plane \o <<"layers">>
Mass     == Plane \o <<"layers", "fractions">>
Dims(v) == IF v \in {"Cu", "Cuf", "Cu0", "Ct", "q", "qs", "qn", "pickup", "w", "w_init", "w_air", "w_bed", "uth", "uthf", "uth0", "u", "us", "un", "u0"} THEN Fraction
           ELSE IF v \in {"thlyr", "salt"} THEN Layer ELSE IF v = "mass" THEN Mass ELSE Plane
Sizes(c) == [s |-> c.nx, n |-> c.ny, layers |-> c.nl, fractions |-> c.nf]

\* the units of the variables; "" for a variable without documented unit
Metres     == {"x", "y", "ds", "dn", "zb", "zs", "zne", "zb0", "zdry", "dzdry", "gw", "gw_prev", "zsep", "hsep", "hveg", "dhveg", "dzbveg", "R", "eta", "sigma_s", "TWL", "SWL", "DSWL",
               "Hs", "Hsmix", "thlyr"}
Velocities == {"ustar", "ustars", "ustarn", "ustar0", "ustars0", "ustarn0", "uw", "uws", "uwn", "uth", "uthf", "uth0", "u", "us", "un"}
Stresses   == {"tau", "taus", "taun", "tau0", "taus0", "taun0", "taus_u", "taun_u"}
Loads      == {"Cu", "Cuf", "Cu0", "Ct", "pickup", "mass"}
Numbers    == {"S", "moist", "moist_swr", "h_delta", "scan_w_moist", "scan_d_moist", "w_h", "d_h", "w_hdelta", "d_hdelta", "rhoveg", "Rti", "dtaus", "dtaun", "w", "w_init", "w_air", "w_bed", "salt"}
Units(v) == IF v \in Metres THEN "m" ELSE IF v \in Velocities THEN "m/s" ELSE IF v \in Stresses THEN "N/m^2" ELSE IF v \in Loads THEN "kg/m^2" ELSE IF v \in Numbers THEN "1"
            ELSE IF v \in {"q", "qs", "qn"} THEN "kg/m/s" ELSE IF v \in {"theta_stat", "theta_dyn", "udir"} THEN "degrees" ELSE IF v = "Tp" THEN "s"
            ELSE IF v = "dzb" THEN "m/dt" ELSE IF v = "dzbyear" THEN "m/yr" ELSE IF v = "dzbavg" THEN "m/year" ELSE IF v = "dsdn" THEN "m^2" ELSE IF v = "dsdni" THEN "m^-2" ELSE IF v \in {"wetting", "scan_w", "scan_d"} THEN "bool" ELSE ""
\* every variable that is requested, itself or one of its statistics, is written
\* with the statistics of the configuration as well
\* a statistic is a variable of its own, named after the variable and the statistic
Names(v, stats) == {IF e = "" THEN v ELSE SCat(v, SCat("_", e)) : e \in stats}
Standard == {"s", "n", "x", "y", "layers", "fractions", "lat", "lon", "time", "x_bounds", "y_bounds", "lat_bounds", "lon_bounds", "time_bounds", "crs"}

(* ------------------------------------------------- records and restart files *)
\* a record is due at time zero and when the interval has passed since the last
Due(t, tout, interval) == (t -- tout) \succeq interval \/ REq(t, 0)
\* a restart file is due when its interval (if any) has passed since the last
DueRestart(t, trst, every) == ~REq(every, 0) /\ (t -- trst) \succeq every
\* the times of the records and restart files of a run that came to these times; the times count from zero
RECURSIVE Records(_, _, _)
Records(ts, tout, interval) ==
    IF ts = <<>> THEN <<>>
    ELSE IF Due(Head(ts), tout, interval) THEN <<Head(ts)>> \o Records(Tail(ts), Head(ts), interval) ELSE Records(Tail(ts), tout, interval)
RECURSIVE Restarts(_, _, _)
Restarts(ts, trst, every) ==
    IF ts = <<>> THEN <<>>
    ELSE IF DueRestart(Head(ts), trst, every) THEN <<Head(ts)>> \o Restarts(Tail(ts), Head(ts), every) ELSE Restarts(Tail(ts), trst, every)
Bounds(recs, k) == <<IF k = 1 THEN R(0) ELSE R(recs[k-1]), R(recs[k])>>
=============================================================================
