------------------------------ MODULE SelfText ------------------------------
(* The grammar of grammars as a grammar text.  Generated by lib/selftext.py. *)
LOCAL INSTANCE Sequences
Lines == <<
  << 10 >>,
  << 32, 32, 32, 32, 47, 42, 32, 32, 32, 32, 32, 32, 65, 32, 112, 101, 103, 32, 103, 114, 97, 109, 109, 97, 114, 32, 116, 111, 32, 112, 97, 114, 115, 101, 32, 112, 101, 103, 32, 103, 114, 97, 109, 109, 97, 114, 115, 10 >>,
  << 32, 32, 32, 32, 32, 42, 10 >>,
  << 32, 32, 32, 32, 32, 42, 47, 10 >>,
  << 10 >>,
  << 32, 32, 32, 32, 109, 97, 105, 110, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 61, 32, 32, 32, 103, 114, 97, 109, 109, 97, 114, 10 >>,
  << 10 >>,
  << 32, 32, 32, 32, 103, 114, 97, 109, 109, 97, 114, 32, 32, 32, 32, 32, 32, 32, 32, 32, 61, 32, 32, 32, 40, 114, 117, 108, 101, 32, 32, 47, 32, 32, 109, 111, 100, 117, 108, 101, 41, 43, 10 >>,
  << 32, 32, 32, 32, 10 >>,
  << 32, 32, 32, 32, 109, 111, 100, 117, 108, 101, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 61, 32, 32, 32, 95, 32, 32, 109, 111, 100, 95, 110, 97, 109, 101, 32, 95, 32, 39, 123, 39, 32, 32, 95, 32, 103, 114, 97, 109, 109, 97, 114, 32, 32, 95, 32, 39, 125, 39, 32, 95, 101, 111, 108, 32, 95, 10 >>,
  << 32, 32, 32, 32, 109, 111, 100, 95, 110, 97, 109, 101, 32, 32, 32, 32, 32, 32, 32, 32, 61, 32, 32, 32, 115, 121, 109, 98, 111, 108, 10 >>,
  << 32, 32, 32, 32, 115, 121, 109, 98, 111, 108, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 61, 32, 32, 32, 91, 95, 97, 45, 122, 65, 45, 90, 48, 45, 57, 93, 32, 91, 95, 39, 34, 97, 45, 122, 65, 45, 90, 48, 45, 57, 93, 42, 10 >>,
  << 10 >>,
  << 32, 32, 32, 32, 114, 117, 108, 101, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 61, 32, 32, 32, 95, 32, 32, 114, 117, 108, 101, 95, 110, 97, 109, 101, 32, 32, 95, 32, 32, 39, 61, 39, 32, 32, 95, 32, 32, 101, 120, 112, 114, 32, 32, 95, 101, 111, 108, 32, 95, 10 >>,
  << 32, 32, 32, 32, 114, 117, 108, 101, 95, 110, 97, 109, 101, 32, 32, 32, 32, 32, 32, 32, 61, 32, 32, 32, 39, 46, 39, 63, 32, 32, 115, 121, 109, 98, 111, 108, 32, 32, 40, 39, 46, 39, 32, 115, 121, 109, 98, 111, 108, 41, 42, 10 >>,
  << 10 >>,
  << 32, 32, 32, 32, 101, 120, 112, 114, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 61, 32, 32, 32, 111, 114, 10 >>,
  << 10 >>,
  << 32, 32, 32, 32, 111, 114, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 61, 32, 32, 32, 97, 110, 100, 32, 32, 32, 32, 32, 32, 32, 32, 32, 40, 32, 95, 32, 32, 39, 47, 39, 32, 32, 95, 32, 32, 111, 114, 32, 41, 63, 10 >>,
  << 32, 32, 32, 32, 101, 114, 114, 111, 114, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 61, 32, 32, 32, 39, 101, 114, 114, 111, 114, 39, 32, 95, 32, 32, 39, 40, 39, 32, 32, 95, 32, 32, 108, 105, 116, 101, 114, 97, 108, 32, 32, 95, 32, 32, 39, 41, 39, 10 >>,
  << 10 >>,
  << 32, 32, 32, 32, 97, 110, 100, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 61, 32, 32, 32, 101, 114, 114, 111, 114, 32, 10 >>,
  << 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 47, 32, 32, 32, 114, 101, 112, 95, 111, 114, 95, 110, 101, 103, 32, 32, 40, 32, 95, 49, 32, 95, 32, 33, 40, 114, 117, 108, 101, 95, 110, 97, 109, 101, 32, 95, 32, 40, 39, 61, 39, 32, 47, 32, 39, 123, 39, 41, 41, 32, 97, 110, 100, 32, 41, 42, 10 >>,
  << 32, 32, 32, 32, 95, 49, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 61, 32, 32, 32, 40, 39, 32, 39, 32, 47, 32, 101, 111, 108, 41, 32, 32, 32, 32, 32, 47, 47, 32, 32, 116, 104, 105, 115, 32, 105, 115, 32, 116, 104, 101, 32, 97, 110, 100, 32, 115, 101, 112, 97, 114, 97, 116, 111, 114, 10 >>,
  << 10 >>,
  << 32, 32, 32, 32, 114, 101, 112, 95, 111, 114, 95, 110, 101, 103, 32, 32, 32, 32, 32, 32, 61, 32, 32, 32, 97, 116, 111, 109, 95, 111, 114, 95, 112, 97, 114, 32, 40, 39, 42, 39, 32, 47, 32, 39, 43, 39, 32, 47, 32, 39, 63, 39, 41, 63, 10 >>,
  << 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 47, 32, 32, 32, 39, 33, 39, 32, 97, 116, 111, 109, 95, 111, 114, 95, 112, 97, 114, 10 >>,
  << 10 >>,
  << 32, 32, 32, 32, 97, 116, 111, 109, 95, 111, 114, 95, 112, 97, 114, 32, 32, 32, 32, 32, 61, 32, 32, 32, 40, 97, 116, 111, 109, 32, 47, 32, 112, 97, 114, 101, 110, 116, 104, 41, 10 >>,
  << 10 >>,
  << 32, 32, 32, 32, 112, 97, 114, 101, 110, 116, 104, 32, 32, 32, 32, 32, 32, 32, 32, 32, 61, 32, 32, 32, 39, 40, 39, 32, 32, 95, 32, 32, 101, 120, 112, 114, 32, 32, 95, 32, 32, 40, 32, 32, 39, 41, 39, 10 >>,
  << 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 47, 32, 32, 101, 114, 114, 111, 114, 40, 34, 117, 110, 98, 97, 108, 97, 110, 99, 101, 100, 32, 112, 97, 114, 101, 116, 104, 101, 115, 105, 115, 58, 32, 109, 105, 115, 115, 105, 110, 103, 32, 39, 41, 39, 34, 41, 32, 10 >>,
  << 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 41, 10 >>,
  << 10 >>,
  << 32, 32, 32, 32, 97, 116, 111, 109, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 61, 32, 32, 32, 108, 105, 116, 101, 114, 97, 108, 10 >>,
  << 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 47, 32, 32, 32, 109, 97, 116, 99, 104, 10 >>,
  << 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 47, 32, 32, 32, 114, 117, 108, 101, 95, 110, 97, 109, 101, 10 >>,
  << 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 47, 32, 32, 32, 100, 111, 116, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 47, 47, 32, 32, 97, 115, 32, 114, 117, 108, 101, 95, 110, 97, 109, 101, 32, 99, 97, 110, 32, 115, 116, 97, 114, 116, 32, 119, 105, 116, 104, 32, 97, 32, 39, 46, 39, 44, 32, 100, 111, 116, 32, 104, 97, 115, 32, 116, 111, 32, 98, 101, 32, 97, 102, 116, 101, 114, 32, 114, 117, 108, 101, 95, 110, 97, 109, 101, 10 >>,
  << 10 >>,
  << 32, 32, 32, 32, 108, 105, 116, 101, 114, 97, 108, 32, 32, 32, 32, 32, 32, 32, 32, 32, 61, 32, 32, 108, 105, 116, 95, 110, 111, 101, 115, 99, 32, 32, 47, 32, 32, 108, 105, 116, 95, 101, 115, 99, 10 >>,
  << 10 >>,
  << 32, 32, 32, 32, 108, 105, 116, 95, 110, 111, 101, 115, 99, 32, 32, 32, 32, 32, 32, 32, 61, 32, 32, 32, 95, 39, 32, 32, 32, 40, 32, 32, 33, 95, 39, 32, 46, 32, 32, 41, 42, 32, 32, 32, 95, 39, 10 >>,
  << 32, 32, 32, 32, 95, 39, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 61, 32, 32, 32, 34, 39, 34, 10 >>,
  << 10 >>,
  << 32, 32, 32, 32, 108, 105, 116, 95, 101, 115, 99, 32, 32, 32, 32, 32, 32, 32, 32, 32, 61, 32, 32, 32, 95, 34, 10 >>,
  << 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 40, 32, 32, 32, 101, 115, 99, 95, 99, 104, 97, 114, 10 >>,
  << 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 47, 32, 32, 32, 104, 101, 120, 95, 99, 104, 97, 114, 10 >>,
  << 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 47, 32, 32, 32, 33, 95, 34, 32, 46, 10 >>,
  << 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 41, 42, 10 >>,
  << 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 95, 34, 10 >>,
  << 32, 32, 32, 32, 95, 34, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 61, 32, 32, 32, 39, 34, 39, 10 >>,
  << 10 >>,
  << 32, 32, 32, 32, 101, 115, 99, 95, 99, 104, 97, 114, 32, 32, 32, 32, 32, 32, 32, 32, 61, 32, 32, 32, 39, 92, 114, 39, 10 >>,
  << 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 47, 32, 32, 32, 39, 92, 110, 39, 10 >>,
  << 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 47, 32, 32, 32, 39, 92, 116, 39, 10 >>,
  << 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 47, 32, 32, 32, 39, 92, 92, 39, 10 >>,
  << 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 47, 32, 32, 32, 39, 92, 34, 39, 10 >>,
  << 10 >>,
  << 32, 32, 32, 32, 104, 101, 120, 95, 99, 104, 97, 114, 32, 32, 32, 32, 32, 32, 32, 32, 61, 32, 32, 32, 39, 92, 48, 120, 39, 32, 91, 48, 45, 57, 65, 45, 70, 93, 32, 91, 48, 45, 57, 65, 45, 70, 93, 10 >>,
  << 10 >>,
  << 32, 32, 32, 32, 101, 111, 108, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 61, 32, 32, 32, 40, 34, 92, 114, 92, 110, 34, 32, 32, 47, 32, 32, 34, 92, 110, 34, 32, 32, 47, 32, 32, 34, 92, 114, 34, 41, 10 >>,
  << 32, 32, 32, 32, 95, 101, 111, 108, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 61, 32, 32, 32, 40, 39, 32, 39, 32, 47, 32, 99, 111, 109, 109, 101, 110, 116, 41, 42, 32, 32, 101, 111, 108, 10 >>,
  << 10 >>,
  << 32, 32, 32, 32, 109, 97, 116, 99, 104, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 61, 32, 32, 32, 39, 91, 39, 10 >>,
  << 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 40, 10 >>,
  << 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 40, 109, 99, 104, 97, 114, 115, 32, 32, 109, 98, 101, 116, 119, 101, 101, 110, 42, 41, 10 >>,
  << 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 47, 32, 109, 98, 101, 116, 119, 101, 101, 110, 43, 10 >>,
  << 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 41, 10 >>,
  << 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 39, 93, 39, 10 >>,
  << 10 >>,
  << 32, 32, 32, 32, 109, 99, 104, 97, 114, 115, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 61, 32, 32, 32, 40, 33, 39, 93, 39, 32, 33, 40, 46, 32, 39, 45, 39, 41, 32, 46, 41, 43, 10 >>,
  << 32, 32, 32, 32, 109, 98, 101, 116, 119, 101, 101, 110, 32, 32, 32, 32, 32, 32, 32, 32, 61, 32, 32, 32, 40, 46, 32, 32, 39, 45, 39, 32, 32, 46, 41, 10 >>,
  << 10 >>,
  << 32, 32, 32, 32, 100, 111, 116, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 61, 32, 32, 32, 39, 46, 39, 10 >>,
  << 10 >>,
  << 32, 32, 32, 32, 95, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 61, 32, 32, 32, 40, 32, 32, 39, 32, 39, 10 >>,
  << 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 47, 32, 32, 32, 101, 111, 108, 10 >>,
  << 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 47, 32, 32, 32, 99, 111, 109, 109, 101, 110, 116, 10 >>,
  << 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 41, 42, 10 >>,
  << 10 >>,
  << 32, 32, 32, 32, 99, 111, 109, 109, 101, 110, 116, 32, 32, 32, 32, 32, 32, 32, 32, 32, 61, 32, 32, 32, 108, 105, 110, 101, 95, 99, 111, 109, 109, 101, 110, 116, 10 >>,
  << 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 47, 32, 32, 32, 109, 108, 105, 110, 101, 95, 99, 111, 109, 109, 101, 110, 116, 10 >>,
  << 10 >>,
  << 32, 32, 32, 32, 108, 105, 110, 101, 95, 99, 111, 109, 109, 101, 110, 116, 32, 32, 32, 32, 61, 32, 32, 32, 39, 47, 47, 39, 32, 40, 33, 101, 111, 108, 32, 46, 41, 42, 32, 32, 101, 111, 108, 10 >>,
  << 32, 32, 32, 32, 109, 108, 105, 110, 101, 95, 99, 111, 109, 109, 101, 110, 116, 32, 32, 32, 61, 32, 32, 32, 39, 47, 42, 39, 32, 40, 33, 39, 42, 47, 39, 32, 46, 41, 42, 32, 39, 42, 47, 39, 10 >>,
  << 32, 32, 32, 32 >> >>
LOCAL INSTANCE Naturals
RECURSIVE Joined(_, _)
Joined(a, b) == IF a > b THEN << >> ELSE IF a = b THEN Lines[a] ELSE LET h == (a + b) \div 2 IN Joined(a, h) \o Joined(h + 1, b)
SelfText == Joined(1, Len(Lines))
\* the names of its rules, as they are written
NameCodes(x) ==
    CASE x = "main" -> << 109, 97, 105, 110 >>
      [] x = "grammar" -> << 103, 114, 97, 109, 109, 97, 114 >>
      [] x = "module" -> << 109, 111, 100, 117, 108, 101 >>
      [] x = "mod_name" -> << 109, 111, 100, 95, 110, 97, 109, 101 >>
      [] x = "symbol" -> << 115, 121, 109, 98, 111, 108 >>
      [] x = "rule" -> << 114, 117, 108, 101 >>
      [] x = "rule_name" -> << 114, 117, 108, 101, 95, 110, 97, 109, 101 >>
      [] x = "expr" -> << 101, 120, 112, 114 >>
      [] x = "or" -> << 111, 114 >>
      [] x = "error" -> << 101, 114, 114, 111, 114 >>
      [] x = "and" -> << 97, 110, 100 >>
      [] x = "_1" -> << 95, 49 >>
      [] x = "rep_or_neg" -> << 114, 101, 112, 95, 111, 114, 95, 110, 101, 103 >>
      [] x = "atom_or_par" -> << 97, 116, 111, 109, 95, 111, 114, 95, 112, 97, 114 >>
      [] x = "parenth" -> << 112, 97, 114, 101, 110, 116, 104 >>
      [] x = "atom" -> << 97, 116, 111, 109 >>
      [] x = "literal" -> << 108, 105, 116, 101, 114, 97, 108 >>
      [] x = "lit_noesc" -> << 108, 105, 116, 95, 110, 111, 101, 115, 99 >>
      [] x = "_'" -> << 95, 39 >>
      [] x = "lit_esc" -> << 108, 105, 116, 95, 101, 115, 99 >>
      [] x = "_\"" -> << 95, 34 >>
      [] x = "esc_char" -> << 101, 115, 99, 95, 99, 104, 97, 114 >>
      [] x = "hex_char" -> << 104, 101, 120, 95, 99, 104, 97, 114 >>
      [] x = "eol" -> << 101, 111, 108 >>
      [] x = "_eol" -> << 95, 101, 111, 108 >>
      [] x = "match" -> << 109, 97, 116, 99, 104 >>
      [] x = "mchars" -> << 109, 99, 104, 97, 114, 115 >>
      [] x = "mbetween" -> << 109, 98, 101, 116, 119, 101, 101, 110 >>
      [] x = "dot" -> << 100, 111, 116 >>
      [] x = "_" -> << 95 >>
      [] x = "comment" -> << 99, 111, 109, 109, 101, 110, 116 >>
      [] x = "line_comment" -> << 108, 105, 110, 101, 95, 99, 111, 109, 109, 101, 110, 116 >>
      [] x = "mline_comment" -> << 109, 108, 105, 110, 101, 95, 99, 111, 109, 109, 101, 110, 116 >>
=============================================================================
