------------------------------ MODULE GenNames ------------------------------
(***************************************************************************)
(* Behaviours that request solutions by every spelling of a solution type   *)
(* and a method: all documented names in several cases, undocumented ones,  *)
(* methods of another type, methods that are not available and values for   *)
(* the sparsity that are not booleans.  One behaviour per spelling of the   *)
(* type and kind of sparsity goes through all spellings of the methods, in  *)
(* random order, with selections and steps in between.                      *)
(***************************************************************************)
EXTENDS GenLib, World

Part    == EnvInt("GEN_PART", 100)     \* percentage of the method spellings in a behaviour
OutFile == Env("GEN_OUT")

StForms == <<
  "numerical", "NUMERICAL", "Numerical", "nUmErIcAl", "num", "NUM", "Num", "nUm", "n", "N", "analytical", 
  "ANALYTICAL", "Analytical", "aNaLyTiCaL", "ana", "ANA", "Ana", "aNa", "a", "A", "neurical", "NEURICAL", 
  "Neurical", "nEuRiCaL", "neu", "NEU", "Neu", "nEu", "nn", "NN", "Nn", "nN", "", "numeric", "numerical ", 
  "analytic", "neural", "ann", "fdm", "FDM", "numericaln", "True" >>
MeForms == <<
  "fdm", "FDM", "Fdm", "fDm", "finite difference method", "FINITE DIFFERENCE METHOD", 
  "Finite Difference Method", "fInItE DiFfErEnCe mEtHoD", "finite-difference-method", 
  "FINITE-DIFFERENCE-METHOD", "Finite-Difference-Method", "fInItE-DiFfErEnCe-mEtHoD", "fvm", "FVM", "Fvm", 
  "fVm", "finite volume method", "FINITE VOLUME METHOD", "Finite Volume Method", "fInItE VoLuMe mEtHoD", 
  "finite-volume-method", "FINITE-VOLUME-METHOD", "Finite-Volume-Method", "fInItE-VoLuMe-mEtHoD", "fem", 
  "FEM", "Fem", "fEm", "finite element method", "FINITE ELEMENT METHOD", "Finite Element Method", 
  "fInItE ElEmEnT MeThOd", "finite-element-method", "FINITE-ELEMENT-METHOD", "Finite-Element-Method", 
  "fInItE-ElEmEnT-MeThOd", "d1p1", "D1P1", "1d1p", "1D1P", "1-dimension-1-phase", "1-DIMENSION-1-PHASE", 
  "1-Dimension-1-Phase", "1-dImEnSiOn-1-pHaSe", "1dimension1phase", "1DIMENSION1PHASE", "1Dimension1Phase", 
  "1DiMeNsIoN1PhAsE", "d1p2", "D1P2", "1d2p", "1D2P", "1-dimension-2-phase", "1-DIMENSION-2-PHASE", 
  "1-Dimension-2-Phase", "1-dImEnSiOn-2-pHaSe", "1dimension2phase", "1DIMENSION2PHASE", "1Dimension2Phase", 
  "1DiMeNsIoN2PhAsE", "d1p3", "D1P3", "1d3p", "1D3P", "1-dimension-3-phase", "1-DIMENSION-3-PHASE", 
  "1-Dimension-3-Phase", "1-dImEnSiOn-3-pHaSe", "1dimension3phase", "1DIMENSION3PHASE", "1Dimension3Phase", 
  "1DiMeNsIoN3PhAsE", "d2p1", "D2P1", "2d1p", "2D1P", "2-dimension-1-phase", "2-DIMENSION-1-PHASE", 
  "2-Dimension-1-Phase", "2-dImEnSiOn-1-pHaSe", "2dimension1phase", "2DIMENSION1PHASE", "2Dimension1Phase", 
  "2DiMeNsIoN1PhAsE", "d2p2", "D2P2", "2-dimension-2-phase", "2-DIMENSION-2-PHASE", "2-Dimension-2-Phase", 
  "2-dImEnSiOn-2-pHaSe", "2dimension2phase", "2DIMENSION2PHASE", "2Dimension2Phase", "2DiMeNsIoN2PhAsE", 
  "d2p3", "D2P3", "2-dimension-3-phase", "2-DIMENSION-3-PHASE", "2-Dimension-3-Phase", "2-dImEnSiOn-3-pHaSe", 
  "2dimension3phase", "2DIMENSION3PHASE", "2Dimension3Phase", "2DiMeNsIoN3PhAsE", "d3p1", "D3P1", "3d1p", 
  "3D1P", "3-dimension-1-phase", "3-DIMENSION-1-PHASE", "3-Dimension-1-Phase", "3-dImEnSiOn-1-pHaSe", 
  "3dimension1phase", "3DIMENSION1PHASE", "3Dimension1Phase", "3DiMeNsIoN1PhAsE", "d3p2", "D3P2", 
  "3-dimension-2-phase", "3-DIMENSION-2-PHASE", "3-Dimension-2-Phase", "3-dImEnSiOn-2-pHaSe", 
  "3dimension2phase", "3DIMENSION2PHASE", "3Dimension2Phase", "3DiMeNsIoN2PhAsE", "d3p3", "D3P3", 
  "3-dimension-3-phase", "3-DIMENSION-3-PHASE", "3-Dimension-3-Phase", "3-dImEnSiOn-3-pHaSe", 
  "3dimension3phase", "3DIMENSION3PHASE", "3Dimension3Phase", "3DiMeNsIoN3PhAsE", "pinn", "PINN", "Pinn", 
  "pInN", "physics informed neural network", "PHYSICS INFORMED NEURAL NETWORK", 
  "Physics Informed Neural Network", "pHySiCs iNfOrMeD NeUrAl nEtWoRk", "physics-informed-neural-network", 
  "PHYSICS-INFORMED-NEURAL-NETWORK", "Physics-Informed-Neural-Network", "pHySiCs-iNfOrMeD-NeUrAl-nEtWoRk", 
  "deeponet", "DEEPONET", "Deeponet", "dEePoNeT", "deep operator network", "DEEP OPERATOR NETWORK", 
  "Deep Operator Network", "dEeP OpErAtOr nEtWoRk", "deep-operator-network", "DEEP-OPERATOR-NETWORK", 
  "Deep-Operator-Network", "dEeP-OpErAtOr-nEtWoRk", "", "fd", "FDM ", "finite difference", 
  "finite_difference_method", "numerical", "d1p", "p1d1", "1p1d", "d4p1", "fdmm", "pinns", "None", "d0p0", 
  "1d", "FDM-FVM" >>

Sparses == <<TRUE, FALSE, 1, "None", "True", N("0.5")>>

Mo(i, m, a) == [op |-> "call", on |-> "model", i |-> i, m |-> m, a |-> a]
At1(m) == [op |-> "get", on |-> "model", i |-> 1, m |-> m, a |-> None0]
Run(n) == Mo(1, "run", [nsteps |-> n])

\* a one-dimensional model, for which the analytical solution exists, or another
Setup(key) ==
  LET one == Chance(<<key, "one">>, 60)
      s == IF one THEN Pick(<<key, "s1">>, << <<3, 1, 1>>, <<4, 1, 1>>, <<1, 3, 1>>, <<1, 1, 4>> >>)
           ELSE Pick(<<key, "s2">>, << <<2, 2, 1>>, <<2, 1, 2>>, <<2, 2, 2>> >>)
      g == GenShape(key, s, <<1, 1, 1>>, TRUE) @@ [kx |-> 50, ky |-> 50, kz |-> 50, phi |-> N("0.25"), comp |-> N("1e-6")]
      f == [mu |-> 1, B |-> 1, rho |-> 50, comp |-> N("1e-5"), unit |-> "field"]
  IN  <<NewGrid(1, g), NewFluid(1, f), NewModel(1, 1, 1, [pi |-> 4000, dt |-> 1, unit |-> "field"]),
        NewModel(2, 1, 1, [pi |-> 3000, dt |-> 2, unit |-> "field"]),
        Mo(1, "set_all_boundaries", [cond |-> "pressure", v |-> 3000]),
        Mo(2, "compile", [stype |-> "numerical", method |-> "FDM", sparse |-> TRUE])>>

VARIABLES c, k, w, ops, order
Cases == Len(StForms) * 2
StOf(n) == StForms[1 + ((n - 1) \div 2)]
SpOf(n) == (n % 2) = 0
Total == (Len(MeForms) * Part) \div 100

After1(ww, e) == IF IsMutator(e) \/ e.op = "new" THEN (IF AllLegal(ww, e) THEN TLCEval(Apply(ww, e)) ELSE ww) ELSE ww
RECURSIVE AfterAll(_, _)
AfterAll(ww, es) == IF es = <<>> THEN ww ELSE AfterAll(TLCEval(After1(ww, Head(es))), Tail(es))

\* what is asked after a request
Extra(key, ww) ==
  LET m == ww.model[1]  r == Rnd(<<key, "r">>, 16)
      is1 == Dim(m.go.d) = 1
  IN  IF m.cur = "" THEN IF r = 0 THEN <<Mo(1, "get_solutions", None0)>> ELSE <<>>
      ELSE CASE r = 0 -> <<At1("compiler.stype"), At1("compiler.method")>>
             [] r = 1 -> <<At1("compiler.sparse"), At1("solution.sparse")>>
             [] r = 2 -> <<At1("solution.name"), Mo(1, "get_shape", [boundary |-> Chance(<<key, "b">>, 50)])>>
             [] r = 3 -> <<Mo(1, "set_solution", [name |-> Pick(<<key, "n">>, m.names)])>>
             [] r = 4 -> <<Mo(1, "set_solution", [name |-> Pick(<<key, "bn">>, <<"FDM", "numerical", "BlackOil-numerical-FDM",
                              "blackoil-numerical-fdm-true", "BlackOil-numerical-FVM-True", "BlackOil-neurical-PINN-True">>)])>>
             [] r \in 5..7 -> IF m.sols[m.cur].cls = "D1P1"
                              THEN (IF is1 THEN <<Run(1 + Rnd(<<key, "n">>, 3))>> ELSE <<>>)
                              ELSE (IF Chance(<<key, "so">>, 50) THEN <<Mo(1, "solve", [isolver |-> "None"])>>
                                    ELSE <<Run(1 + Rnd(<<key, "n">>, 2))>>)
             [] r = 8 -> <<Mo(1, "get_solutions", None0)>>
             [] OTHER -> <<>>
Init == /\ c \in 1..Cases
        /\ k = -1
        /\ w = NewWorld([rows |-> <<>>])
        /\ ops = <<>>
        /\ order = <<>>
Start == /\ k = -1
         /\ \E key \in {<<Seed, "names", c>>} : \E es \in {Setup(key)} :
              /\ w' = AfterAll(w, es)
              /\ ops' = es
              /\ order' = SubSeq(Shuffle(key, [n \in 1..Len(MeForms) |-> n]), 1, Total)
         /\ k' = 0 /\ c' = c
Step == /\ k >= 0 /\ k < Total
        /\ \E key \in {<<Seed, "names", c, k>>} :
             LET sp == IF Chance(<<key, "bad">>, 8) THEN Pick(<<key, "sp">>, Sparses) ELSE SpOf(c)
                 a0 == [stype |-> StOf(c), method |-> MeForms[order[k + 1]], sparse |-> sp]
                 a  == IF SpOf(c) /\ (IF IsBool(sp) THEN sp ELSE FALSE) /\ Chance(<<key, "dflt">>, 10)
                       THEN [stype |-> a0.stype, method |-> a0.method] ELSE a0
             IN  \E w1 \in {After1(w, Mo(1, "compile", a))} : \E ex \in {Extra(key, w1)} :
                   /\ ops' = ops \o <<Mo(1, "compile", a)>> \o ex
                   /\ w' = AfterAll(w1, ex)
        /\ k' = k + 1 /\ UNCHANGED <<c, order>>
Write == /\ k = Total
         /\ Dump(OutFile, [id |-> Cat(<<"names-", c>>), obs |-> TRUE, ops |-> ops])
         /\ k' = k + 1
         /\ UNCHANGED <<c, w, ops, order>>
Next == Start \/ Step \/ Write
View == <<c, k>>
=============================================================================
