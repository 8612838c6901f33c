-------------------------------- MODULE Units -------------------------------
(***************************************************************************)
(* The documented unit systems: the label of every quantity and the         *)
(* conversion constants, per system.                                        *)
(***************************************************************************)
EXTENDS Output

UnitTable ==
     ("transmissibility"               :> <<"stb/(day.psi)", "m^3/(day.bar)", "cm^3/(sec.atm)">>)
  @@ ("error"                          :> <<"stb/day", "m^3/day", "cm^3/sec">>)
  @@ ("pressure"                       :> <<"psia", "kpa", "atm">>)
  @@ ("potential"                      :> <<"psia", "kpa", "atm">>)
  @@ ("time"                           :> <<"days", "days", "sec">>)
  @@ ("rate"                           :> <<"stb/day", "m^3/day", "cm^3/sec">>)
  @@ ("length"                         :> <<"ft", "m", "cm">>)
  @@ ("area"                           :> <<"ft^2", "m^2", "cm^2">>)
  @@ ("volume"                         :> <<"ft^3", "m^3", "cm^3">>)
  @@ ("permeability"                   :> <<"md", "m^2", "darcy">>)
  @@ ("viscosity"                      :> <<"cp", "mpa.sec", "cp">>)
  @@ ("gas formation volume factor"    :> <<"bbl/scf", "m^3/(std\\,m^3)", "cm^3/(std\\,cm^3)">>)
  @@ ("liquid formation volume factor" :> <<"bbl/stb", "m^3/(std\\,m^3)", "cm^3/(std\\,cm^3)">>)
  @@ ("solution gas oil ratio"         :> <<"scf/stb", "(std\\,m^3)/(std\\,m^3)", "(std\\,cm^3)/(std\\,cm^3)">>)
  @@ ("phase gravity"                  :> <<"psi/ft", "kpa/m", "atm/cm">>)
  @@ ("gas flow rate"                  :> <<"scf/day", "(std\\,m^3)/day", "(std\\,cm^3)/day">>)
  @@ ("liquid flow rate"               :> <<"stb/day", "(std\\,m^3)/day", "(std\\,cm^3)/day">>)
  @@ ("volumetric velocity"            :> <<"bbl/(day.ft^2)", "m/day", "cm/day">>)
  @@ ("density"                        :> <<"lbm/ft^3", "kg/m^3", "g/cm^3">>)
  @@ ("compressibility"                :> <<"psi^{-1}", "kpa^{-1}", "atm^{-1}">>)
  @@ ("compressibility factor"         :> <<"dimensionless", "dimensionless", "dimensionless">>)
  @@ ("temperature"                    :> <<"R", "K", "K">>)
  @@ ("porosity"                       :> <<"fraction", "fraction", "fraction">>)
  @@ ("saturation"                     :> <<"fraction", "fraction", "fraction">>)
  @@ ("relative permeability"          :> <<"fraction", "fraction", "fraction">>)
  @@ ("angle"                          :> <<"rad", "rad", "rad">>)
  @@ ("gravitational acceleration"     :> <<"ft/(sec^2)", "m/(sec^2)", "cm/(sec^2)">>)
  @@ ("transmissibility conversion"    :> <<"dimensionless", "dimensionless", "dimensionless">>)
  @@ ("gravity conversion"             :> <<"dimensionless", "dimensionless", "dimensionless">>)
  @@ ("volume conversion"              :> <<"dimensionless", "dimensionless", "dimensionless">>)
UnitNo(u) == CASE u = "field" -> 1 [] u = "metric" -> 2 [] u = "lab" -> 3
LabelOf(u, name) == UnitTable[name][UnitNo(u)]
Quantities == SetToSeq(DOMAIN UnitTable)
FactorNames == <<"gravitational acceleration", "transmissibility conversion", "gravity conversion",
                 "volume conversion">>
\* queries of the tables of an object: attribute names "units.<quantity>" and "factors.<constant>"
LabelQuery(name)  == Cat(<<"units.", name>>)
FactorQuery(name) == Cat(<<"factors.", name>>)
UnitQueries == {LabelQuery(n) : n \in DOMAIN UnitTable} \cup {FactorQuery(n) : n \in Range(FactorNames)}
UnitAnswer(u, q) ==
  IF \E n \in DOMAIN UnitTable : q = LabelQuery(n)
  THEN EStr(LabelOf(u, CHOOSE n \in DOMAIN UnitTable : q = LabelQuery(n)))
  ELSE ENum(FactorOf(u, CHOOSE n \in Range(FactorNames) : q = FactorQuery(n)))
\* the module tables: "UNITS.<system>.<quantity>" and "FACTORS.<system>.<constant>"
TableQueries(u) == {<<Cat(<<"UNITS.", u, ".", n>>), LabelQuery(n)>> : n \in DOMAIN UnitTable}
                   \cup {<<Cat(<<"FACTORS.", u, ".", n>>), FactorQuery(n)>> : n \in Range(FactorNames)}
TablesAnswer(q) ==
  LET u == CHOOSE u \in {"field", "metric", "lab"} : \E x \in TableQueries(u) : x[1] = q
  IN  UnitAnswer(u, (CHOOSE x \in TableQueries(u) : x[1] = q)[2])
=============================================================================
