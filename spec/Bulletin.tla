------------------------------ MODULE Bulletin ------------------------------
(* Earth-orientation values for an interval of days from monthly bulletins.    *)
(* Bulletin j (numbered on) has the final values of days first..last; the next *)
(* one goes on where it ends.  A search goes from a first guess to the one     *)
(* with the first day wanted, and on to the one with the last; those with days *)
(* wanted are joined, in order.                                                *)
EXTENDS Integers, Sequences, FiniteSets
\* bulletins: <<number, first, last>>
Holds(b, d) == b[2] <= d /\ d <= b[3]
Useful(b, lo, hi) == b[2] <= hi /\ lo <= b[3]
Covered(W, lo, hi) == (\E b \in W : Holds(b, lo)) /\ (\E b \in W : Holds(b, hi)) /\ \A b \in W : Useful(b, lo, hi) => b[3] >= hi \/ \E c \in W : c[2] = b[3] + 1
Whole(days, lo, hi) == days /= <<>> /\ days[1] <= lo /\ hi <= days[Len(days)] /\ \A i \in 2..Len(days) : days[i] = days[i - 1] + 1
\* values of day d (whatever the bulletin), for the tables written by the check: fourteen columns
Column == << <<9973, 800000, 400000>>, <<7919, 900000, 300000>>, <<6007, 1600000, 800000>>, <<5003, 6000, 3000>>, <<4001, 5000, 2500>>, <<3001, 900, 0>>, <<2003, 800, 0>>, <<1009, 700, 0>>, <<907, 600, 0>>, <<809, 500, 0>>,
             <<7013, 3000000, 1500000>>, <<6011, 30000, 0>>, <<5009, 90000000, 0>>, <<4003, 900, 0>> >>
Value(i, d, seed) == ((Column[i][1] * d + 4999 * i * seed) % Column[i][2]) - Column[i][3]
\* calendar date of a modified Julian day, as y m d in one number
Civil(mjd) == LET z == mjd + 678881 e == z \div 146097 doe == z - e * 146097
                  yoe == (((doe - doe \div 1460) + doe \div 36524) - doe \div 146096) \div 365
                  doy == doe - ((365 * yoe + yoe \div 4) - yoe \div 100) mp == (5 * doy + 2) \div 153
                  day == (doy - (153 * mp + 2) \div 5) + 1 month == IF mp < 10 THEN mp + 3 ELSE mp - 9
              IN ((yoe + e * 400) + (IF month <= 2 THEN 1 ELSE 0)) * 10000 + month * 100 + day
=============================================================================
