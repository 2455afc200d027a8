-------------------------------- MODULE Codecs --------------------------------
(***************************************************************************)
(* The field definitions of ARINC 424 chapter 5: what the text of a field  *)
(* means.  Decode(codec, v, ident) is one of                               *)
(*   Ok(s)  the decoded text is s                                          *)
(*   Err    the text is not a legal value: decoding reports a ValueError   *)
(*   Unspecified  (numerals in a notation that ARINC 424 does not    *)
(*          use but that Python may accept, such as "1E2" or "+5"): either *)
(*          of the above                                                   *)
(* ident is the section code of the record, which decides the meaning of a *)
(* route type.  A codec that is not mentioned is the text itself.          *)
(***************************************************************************)
EXTENDS Text, TLC

Ok(s) == [k |-> "ok", s |-> s]
Err   == [k |-> "err", s |-> ""]
Unspecified   == [k |-> "any", s |-> ""]

-----------------------------------------------------------------------------
(* Code tables *)

AreaNames == (
    "USA" :> "United States of America" @@
    "AFR" :> "Africa" @@
    "CAN" :> "Canada" @@
    "EEU" :> "Eastern Europe and Asia" @@
    "EUR" :> "Europe" @@
    "LAM" :> "Latin America" @@
    "MES" :> "Middle East" @@
    "PAC" :> "Pacific" @@
    "SAM" :> "Southern America" @@
    "SPA" :> "South Pacific")

SectionNames == (
    "AS" :> "Grid MORA" @@
    "D " :> "VHF Navaid" @@
    "DB" :> "NDB Navaid" @@
    "EA" :> "Waypoint" @@
    "EM" :> "Airways Marker" @@
    "EP" :> "Holding Pattern" @@
    "ER" :> "Airways and Route" @@
    "ET" :> "Preferred Route" @@
    "EU" :> "Airway Restrictions" @@
    "EV" :> "Enroute Communication" @@
    "HA" :> "Heliport Pads" @@
    "HC" :> "Heliport Terminal Waypoint" @@
    "HD" :> "Heliport SID" @@
    "HE" :> "Heliport STAR" @@
    "HF" :> "Heliport Approach Procedure" @@
    "HK" :> "Heliport TAA" @@
    "HS" :> "Heliport MSA" @@
    "HV" :> "Heliport Communication" @@
    "PA" :> "Airport Reference Point" @@
    "PB" :> "Airport Gates" @@
    "PC" :> "Airport Terminal Waypoint" @@
    "PD" :> "Airport SID" @@
    "PE" :> "Airport STAR" @@
    "PF" :> "Airport Approach Procedure" @@
    "PG" :> "Airport Runway" @@
    "PI" :> "Airport Localizer/Glideslope" @@
    "PK" :> "Airport TAA" @@
    "PL" :> "Airport MLS" @@
    "PM" :> "Airport Localizer Marker" @@
    "PN" :> "Airport Terminal" @@
    "PP" :> "Airport Path" @@
    "PR" :> "Airport Flt Planning ARR/DEP" @@
    "PS" :> "Airport MSA" @@
    "PT" :> "Airport GLS Station" @@
    "PV" :> "Airport Communication" @@
    "R " :> "Company Route" @@
    "RA" :> "Alternate Record" @@
    "TC" :> "Cruising Table" @@
    "TG" :> "Geographical Reference" @@
    "TN" :> "RNAV Name Table" @@
    "UC" :> "Controller Airspace" @@
    "UF" :> "Airspace FIR/UIR" @@
    "UR" :> "Restrictive Airspace")

AirwayRouteTypes == (
    "A" :> "Airline Airway (Tailored Data)" @@
    "C" :> "Control" @@
    "D" :> "Direct Route" @@
    "H" :> "Helicopter Airways" @@
    "O" :> "Officially Designated Airways" @@
    "R" :> "RNAV Airways" @@
    "S" :> "Undesignated ATS Route")

PreferredRouteTypes == (
    "C" :> "North American Routes for North Atlantic Traffic Common Portion" @@
    "D" :> "Preferential Routes" @@
    "J" :> "Pacific Oceanic Transition Routes (PACOTS)" @@
    "M" :> "RNAV Airways" @@
    "N" :> "Undesignated ATS Route")

SidRouteTypes == (
    "0" :> "Engine Out SID" @@
    "1" :> "SID Runway Transition" @@
    "2" :> "SID or SID Common Route" @@
    "3" :> "SID Enroute Transition" @@
    "4" :> "RNAV SID Runway Transition" @@
    "5" :> "RNAV SID or SID Common Route" @@
    "6" :> "RNAV SID Enroute Transition" @@
    "F" :> "FMS SID Runway Transition" @@
    "M" :> "FMS SID or SID Common Route" @@
    "S" :> "FMS SID Enroute Transition" @@
    "R" :> "RNP SID Runway Transition" @@
    "N" :> "RNP SID or SID Common Route" @@
    "P" :> "RNP SID Enroute Transition" @@
    "T" :> "Vector SID Runway Transition" @@
    "V" :> "Vector SID Enroute Transition")

StarRouteTypes == (
    "1" :> "STAR Enroute Transition" @@
    "2" :> "STAR or STAR Common Route" @@
    "3" :> "STAR Runway Transition" @@
    "4" :> "RNAV STAR Enroute Transition" @@
    "5" :> "RNAV STAR or STAR Common Route" @@
    "6" :> "RNAV STAR Runway Transition" @@
    "7" :> "Profile Descent Enroute Transition" @@
    "8" :> "Profile Descent Common Route" @@
    "9" :> "Profile Descent Runway Transition" @@
    "F" :> "FMS STAR Enroute Transition" @@
    "M" :> "FMS STAR or STAR Common Route" @@
    "S" :> "FMS STAR Runway Transition" @@
    "R" :> "RNP STAR Enroute Transition" @@
    "N" :> "RNP STAR or STAR Common Route" @@
    "P" :> "RNP STAR Runway Transition")

ApproachRouteTypes == (
    "A" :> "Approach Transition" @@
    "B" :> "Localizer/Backcourse Approach" @@
    "D" :> "VORDME Approach" @@
    "F" :> "Flight Management System (FMS) Approach" @@
    "G" :> "Instrument Guidance System (IGS) Approach" @@
    "H" :> "Area Navigation (RNAV) Approach with Required Navigation Performance (RNP) Approach" @@
    "I" :> "Instrument Landing System (ILS) Approach" @@
    "J" :> "GNSS Landing System (GLS) Approach" @@
    "L" :> "Localizer Only (LOC) Approach" @@
    "M" :> "Microwave Landing System (MLS) Approach" @@
    "N" :> "Non-Directional Beacon (NDB) Approach" @@
    "P" :> "Global Position System (GPS) Approach" @@
    "Q" :> "Non-Directional Beacon + DME (NDB+DME) Approach" @@
    "R" :> "Area Navigation (RNAV) Approach (Note 1)" @@
    "S" :> "VOR Approach using VORDME/VORTAC" @@
    "T" :> "TACAN Approach" @@
    "U" :> "Simplified Directional Facility (SDF) Approach" @@
    "V" :> "VOR Approach" @@
    "W" :> "Microwave Landing System (MLS), Type A Approach" @@
    "X" :> "Localizer Directional Aid (LDA) Approach" @@
    "Y" :> "Microwave Landing System (MLS), Type B and C Approach" @@
    "Z" :> "Missed Approach")

WaypointDesc1 == (
    "A" :> "Airport as Waypoint" @@
    "E" :> "Essential Waypoint" @@
    "F" :> "Off Airway Waypoint" @@
    "G" :> "Runway/Helipad as Waypoint" @@
    "H" :> "Heliport as Waypoint" @@
    "N" :> "NDB Navaid as Waypoint" @@
    "P" :> "Phantom Waypoint" @@
    "R" :> "Non-Essential Waypoint" @@
    "T" :> "Transition Essential Waypoint" @@
    "V" :> "VHF Navaid as Waypoint")

WaypointDesc2 == (
    "B" :> "Flyover Waypoint: End of SID/STAR Route Type, APCH Transition or Final Approach" @@
    "E" :> "End of Enroute Airway or Terminal Procedure Route Type" @@
    "U" :> "Uncharted Airway Intersection" @@
    "Y" :> "Fly-Over Waypoint")

WaypointDesc3 == (
    "A" :> "Unnamed Stepdown Fix After Final Approach Fix" @@
    "B" :> "Unnamed Stepdown Fix Before Final Approach Fix" @@
    "C" :> "ATC Compulsory Waypoint" @@
    "G" :> "Oceanic Gateway Waypoint" @@
    "M" :> "First Leg of Missed Approach Procedure" @@
    "P" :> "Path Point Fix" @@
    "R" :> "Fix used for turning final approach" @@
    "S" :> "Named Stepdown Fix")

WaypointDesc4 == (
    "A" :> "Initial Approach Fix" @@
    "B" :> "Intermediate Approach Fix" @@
    "C" :> "Initial Approach Fix with Holding" @@
    "D" :> "Initial Approach Fix with Final Approach Course Fix" @@
    "E" :> "Final End Point Fix" @@
    "F" :> "Published Final Approach Fix or Database Final Approach Fix" @@
    "H" :> "Holding Fix" @@
    "I" :> "Final Approach Course Fix" @@
    "M" :> "Published Missed Approach Point Fix")

LegTypes == (
    "IF" :> "Initial Fix or IF Leg." @@
    "TF" :> "Track to a Fix or TF Leg." @@
    "CF" :> "Course to a Fix or CF Leg." @@
    "DF" :> "Direct to a Fix or DF Leg." @@
    "FA" :> "Fix to an Altitude or FA Leg." @@
    "FC" :> "Track from a Fix for a Distance or FC Leg." @@
    "FD" :> "Track from a Fix to a DME Distance or FD Leg." @@
    "FM" :> "From a Fix to a Manual termination or FM Leg." @@
    "CA" :> "Course to an Altitude or CA Leg." @@
    "CD" :> "Course to a DME Distance or CD Leg." @@
    "CI" :> "Course to an Intercept or CI Leg." @@
    "CR" :> "Course to a Radial termination or CR Leg." @@
    "RF" :> "Constant Radius Arc or RF Leg." @@
    "AF" :> "Arc to a Fix or AF Leg." @@
    "VA" :> "Heading to an Altitude termination or VA Leg." @@
    "VD" :> "Heading to a DME Distance termination or VD Leg." @@
    "VI" :> "Heading to an Intercept or VI Leg." @@
    "VM" :> "Heading to a Manual termination or VM Leg." @@
    "VR" :> "Heading to a Radial termination or VR Leg." @@
    "PI" :> "045/180 Procedure Turn or PI Leg." @@
    "HA" :> "Holding pattern (Altitude Termination)" @@
    "HF" :> "Holding pattern (Single circuit terminating at the fix)" @@
    "HM" :> "Holding pattern (Manual Termination)")

WaypointType1 == (
    "C" :> "Combined Named Intersection and RNAV" @@
    "I" :> "Unnamed, Charted Intersection" @@
    "R" :> "Named Intersection" @@
    "U" :> "Uncharted Airway Intersection" @@
    "V" :> "VFR Waypoint" @@
    "W" :> "RNAV Waypoint")

WaypointType2 == (
    "A" :> "Final Approach Fix" @@
    "B" :> "Initial and Final Approach Fix" @@
    "C" :> "Final Approach Course Fix" @@
    "D" :> "Intermediate Approach Fix" @@
    "E" :> "Off-Route intersection in FAA National Reference System" @@
    "F" :> "Off-Route Intersection" @@
    "I" :> "Initial Approach Fix" @@
    "K" :> "Final Approach Course Fix at Initial Approach Fix" @@
    "L" :> "Final Approach Course Fix at Intermediate Approach Fix" @@
    "M" :> "Missed Approach Fix" @@
    "N" :> "Initial Approach Fix and Missed Approach Fix" @@
    "O" :> "Oceanic Entry/Exit Waypoint" @@
    "P" :> "Pitch and Catch Point in the FAA High Altitude Redesign" @@
    "S" :> "AACAA and SUA Waypoints in the FAA High Altitude Redesign" @@
    "U" :> "FIR/UIR or Controlled Airspace Intersection" @@
    "V" :> "Latitude/Longitude Intersection, Full Degree of Latitude" @@
    "W" :> "Latitude/Longitude Intersection, Half Degree of Latitude")

LocalizerRefs == (
    "@" :> "Beyond stop end of runway" @@
    "+" :> "Ahead of approach end of runway" @@
    "-" :> "To the side of runway")

ApplicationTypes == (
    "A" :> "Standard ARINC Continuation containing notes or other formatted data" @@
    "B" :> "Combined Controlling Agency/Call Sign and formatted Time of Operation" @@
    "C" :> "Call Sign/Controlling Agency Continuation" @@
    "E" :> "Primary Record Extension" @@
    "L" :> "VHF Navaid Limitation Continuation" @@
    "N" :> "Sector Narrative Continuation" @@
    "T" :> "Time of Operations Continuation \"formatted time data\"" @@
    "U" :> "Time of Operations Continuation \"Narrative time data\"" @@
    "V" :> "Time of Operations Continuation, Start/End Date" @@
    "P" :> "Flight Planning Application Continuation" @@
    "Q" :> "Flight Planning Application Primary Data Continuation" @@
    "S" :> "Simulation Application Continuation" @@
    "W" :> "Airport or Heliport Procedure Data Continuation with SBAS use authorization information")

CommTypes == (
    "ACC" :> "Area Control Center" @@
    "ACP" :> "Airlift Command Post" @@
    "AIR" :> "Air to Air" @@
    "APP" :> "Approach Control" @@
    "ARR" :> "Arrival Control" @@
    "ASO" :> "Automatic Surface Observing System (ASOS)" @@
    "ATI" :> "Automatic Terminal Info Service (ATIS)" @@
    "AWI" :> "Airport Weather Information Broadcast (AWIB)" @@
    "AWO" :> "Automatic Weather Observing Service (AWOS)" @@
    "AWS" :> "Aerodrome Weather Information Services (AWIS)" @@
    "CLD" :> "Clearance Delivery" @@
    "CPT" :> "Clearance, Pre-Taxi" @@
    "CTA" :> "Control Area (Terminal)" @@
    "CTL" :> "Control" @@
    "DEP" :> "Departure Control" @@
    "DIR" :> "Director (Approach Control Radar)" @@
    "EFS" :> "Enroute Flight Advisory Service (EFAS)" @@
    "EMR" :> "Emergency" @@
    "FSS" :> "Flight Service Station" @@
    "GCO" :> "Ground Comm Outlet" @@
    "GND" :> "Ground Control" @@
    "GTE" :> "Gate Control" @@
    "HEL" :> "Helicopter Frequency" @@
    "INF" :> "Information" @@
    "MIL" :> "Military Frequency" @@
    "MUL" :> "Multicom" @@
    "OPS" :> "Operations" @@
    "PAL" :> "Pilot Activated Lighting (Note 1)" @@
    "RDO" :> "Radio" @@
    "RDR" :> "Radar" @@
    "RFS" :> "Remote Flight Service Station (RFSS)" @@
    "RMP" :> "Ramp/Taxi Control" @@
    "RSA" :> "Airport Radar Service Area (ARSA)" @@
    "TCA" :> "Terminal Control Area" @@
    "TMA" :> "Terminal Control Area" @@
    "TML" :> "Terminal" @@
    "TRS" :> "Terminal Radar Service Area (TRSA)" @@
    "TWE" :> "Transcribe Weather Broadcast (TWEB)" @@
    "TWR" :> "Tower, Air Traffic Control" @@
    "UAC" :> "Upper Area Control" @@
    "UNI" :> "Unicom" @@
    "VOL" :> "Volmet")

RadarCodes == (
    "R" :> "Radar Capabilities" @@
    "N" :> "No Radar Capabilities")

FreqUnits == (
    "H" :> "High Frequency (3000 kHz - 30,000 kHz)" @@
    "V" :> "Very High Frequency (30,000 kHz - 200 MHz)" @@
    "U" :> "Ultra High Frequency (200 MHz - 3000 MHz)" @@
    "C" :> "Communication Channel for 8.33 kHz spacing")

ServiceCodes == (
    "A  " :> "Airport Advisory Serivce (AAS)" @@
    "C  " :> "Community Aerodrome Radio Station (CARS)" @@
    "D  " :> "Departure Service (Other than Departure Control Unit)" @@
    "F  " :> "Flight Information Serivce (FIS)" @@
    "I  " :> "Initial Contact (IC)" @@
    "L  " :> "Arrival Service (Other than Arrival Control Unit)" @@
    "P  " :> "Pre-Departure Clearance (Data Link Service)" @@
    "S  " :> "Aerodrome Flight Information Service (AFIS)" @@
    "T  " :> "Terminal Area Control (Other than dedicated Terminal Control Unit)" @@
    " A " :> "Aerodrome Traffic Frequency (ATF)" @@
    " C " :> "Common Traffic Advisory Frequency (CTAF)" @@
    " M " :> "Mandatory Frequency (MF) " @@
    " R " :> "Air/Air" @@
    " S " :> "Secondary Frequency" @@
    "  A" :> "Air/Ground" @@
    "  D" :> "VHF Direction Finding Service (VDF)" @@
    "  G" :> "Remote Communications Air to Ground (RCAG)" @@
    "  L" :> "Language other than English" @@
    "  M" :> "Military Use Frequency" @@
    "  P" :> "Pilot Controlled Light (PCL)" @@
    "  R" :> "Remote Communications Outlet (RCO)")

IfrCodes == (
    "Y" :> "Official" @@
    "N" :> "Non-official")

MarkerShapes == (
    "E" :> "Elliptical" @@
    "B" :> "Bone")

PowerCodes == (
    "H" :> "High Power (general use)" @@
    "L" :> "Low Power (low altitude use)")

BoundaryVia == (
    "C" :> "Circle" @@
    "G" :> "Great Circle" @@
    "H" :> "Rhumb Line" @@
    "L" :> "Counter Clockwise ARC" @@
    "R" :> "Clockwise ARC")

PubMil == (
    "C" :> "Public / Civil" @@
    "M" :> "Military" @@
    "P" :> "Private (not open to public)")

YesNo == (
    "Y" :> "Yes" @@
    "N" :> "No")

H24Codes == (
    "Y" :> "24-Hour Availability" @@
    "N" :> "Part-time Availability")

GuardCodes == (
    "G" :> "Guard (radio receives on this freq)" @@
    "T" :> "Transmit (radio transmits on this freq)" @@
    " " :> "Guards and Transmits")

NameFormat1 == (
    "A" :> "Abeam Fix" @@
    "B" :> "Bearing and Distance Fix " @@
    "D" :> "Airport Name as Fix" @@
    "F" :> "FIR Fix" @@
    "H" :> "Phonetic Letter Name Fix" @@
    "I" :> "Airport Ident as Fix" @@
    "L" :> "Latitude/Longitude Fix " @@
    "M" :> "Multiple Word Name Fix" @@
    "N" :> "Navaid Ident as Fix" @@
    "P" :> "Published Five - Letter - Name - Fix" @@
    "Q" :> "Published Name Fix, less than five letters" @@
    "R" :> "Published Name Fix, more than five letters" @@
    "T" :> "Airport/Rwy Related Fix (Note 2)" @@
    "U" :> "UIR Fix")

NameFormat2 == (
    "O" :> "Localizer Marker with officially published five - letter identifier" @@
    "M" :> "Localizer Marker without officially published five - letter identifier")

ModulationCodes == (
    "A" :> "Amplitude Modulated" @@
    "F" :> "Frequency Modulated")

EmissionCodes == (
    "3" :> "Double Sideband (A3) " @@
    "A" :> "Single sideband, reduced carrier (A3A) " @@
    "B" :> "Two Independent sidebands (A3B)" @@
    "H" :> "Single sideband, full carrier (A3H) " @@
    "J" :> "Single sideband, suppressed carrier (A3J)" @@
    "L" :> "Lower (single) sideband, carrier unknown" @@
    "U" :> "Upper (single) sideband, carrier unknown")

TchCodes == (
    "I" :> "ILS or MLS Glideslope" @@
    "R" :> "RNAV Procedure" @@
    "V" :> "Visual Glideslope Indicator (VGSI)" @@
    "D" :> "Default Value (40 or 50 feet)")


-----------------------------------------------------------------------------
(* How tables are read *)

Unknown           == "<UNKNOWN>"
Lookup(t, v, d)   == IF v \in DOMAIN t THEN Ok(t[v]) ELSE Ok(d)
LookupOrErr(t, v) == IF v \in DOMAIN t THEN Ok(t[v]) ELSE Err
BlankOr(v, r)     == IF IsBlank(v) THEN Ok(v) ELSE r
Unsupported(v)    == "Unsupported Value: \"" \o v \o "\""

RouteTypes(ident) ==
  CASE ident = "ER"             -> AirwayRouteTypes
    [] ident = "ET"             -> PreferredRouteTypes
    [] ident \in {"PD", "HD"}   -> SidRouteTypes
    [] ident \in {"PE", "HE"}   -> StarRouteTypes
    [] ident \in {"PF", "HF"}   -> ApproachRouteTypes
    [] OTHER                    -> <<>>

(* Numerals Python reads but ARINC 424 does not define *)
FloatChars == DigitChars \cup {"+", "-", ".", "_", " ", "e", "E", "i", "I", "n", "N",
                               "f", "F", "t", "T", "y", "Y", "a", "A"}
IntChars   == DigitChars \cup {"+", "-", "_", " "}
Numeral(v, cs, r) == IF IsDigits(v) THEN r ELSE IF AllIn(v, cs) THEN Unspecified ELSE Err

Feet(v)      == IF IsDigits(v) THEN Ok(DropZeros(v) \o " ft") ELSE Ok(v)
Frequency(v) == IF IsDigits(v) THEN Ok(Scale(v, 2)) ELSE Ok("BAD VALUE")
Course(v)    == IF IsDigits(v) THEN Ok(Scale(v, 1)) ELSE Ok("BAD VALUE")

(* an identifier of at most four characters, or nothing *)
ShortIdent(v) == LET s == Strip(v)
                 IN  IF s = "" \/ (IsAlnum(s) /\ Len(s) <= 4) THEN Ok(s) ELSE Err

OneOf(t, c) == IF c \in DOMAIN t THEN <<t[c]>> ELSE <<>>

SequenceText(v) ==
  CASE Len(Strip(v)) = 1 -> "MSA Table, TAA Table, Cruise Table - Sequence No. " \o v
    [] Len(Strip(v)) = 2 -> "VHF Navaid Limitation Continuation Records - Sequence No. " \o v
    [] Len(Strip(v)) = 3 -> "SID/STAR/Approach and Company Routes - Sequence No. " \o v
    [] Len(Strip(v)) = 4 -> "Enroute Airways, Preferred Routes, FIR/UIR, and Restrictive Airspace - Sequence No. " \o v
    [] OTHER -> v

(* letters of the time zones: A..M without J are GMT -1..-12, N..Y GMT +1..+12 *)
ZoneHours == [ A |-> "-1", B |-> "-2", C |-> "-3", D |-> "-4", E |-> "-5", F |-> "-6",
               G |-> "-7", H |-> "-8", I |-> "-9", K |-> "-10", L |-> "-11", M |-> "-12",
               N |-> "+1", O |-> "+2", P |-> "+3", Q |-> "+4", R |-> "+5", S |-> "+6",
               T |-> "+7", U |-> "+8", V |-> "+9", W |-> "+10", X |-> "+11", Y |-> "+12",
               Z |-> "+0" ]

FeetCodecs == {"029", "030", "048", "050", "053", "073", "086", "092", "123", "127",
               "147", "161", "184", "209", "240"}

(* codecs other than "the text itself" *)
TableCodecs   == {"002", "003", "004", "007", "016", "017", "020", "021", "042", "049", "082",
                  "091", "101", "102", "104", "106", "108", "112", "113", "117", "118", "165",
                  "177", "179", "181", "182", "196", "198", "199", "270"}
NumberCodecs  == FeetCodecs \cup {"026", "027", "032", "034", "039", "045", "054", "062", "065",
                  "072", "103", "135", "178", "269"}
TextCodecs    == {"008", "010", "012", "022", "023", "024", "025", "043"}
SpecialCodecs == TableCodecs \cup NumberCodecs \cup TextCodecs

Special(codec, v, ident) ==
  CASE codec \in FeetCodecs -> Feet(v)
    [] codec = "002" -> LookupOrErr([S |-> "Standard", T |-> "Tailored"], v)
    [] codec = "003" -> Lookup(AreaNames, v, Unknown)
    [] codec = "004" -> BlankOr(v, Lookup(SectionNames, v, Unknown))
    [] codec = "007" -> Lookup(RouteTypes(ident), v, Unknown)
    [] codec = "008" -> IF IsAlnum(Strip(v)) THEN Ok(v) ELSE Err
    [] codec = "010" -> Ok("Approach: " \o First(v) \o ", Runway: " \o SubSeq(v, 2, 4))
    [] codec = "012" -> Ok(SequenceText(v))
    [] codec = "016" -> Ok(CASE v = "0" -> "Primary Record"
                             [] v = "1" -> "Primary Record (with Cont.)"
                             [] OTHER   -> v \o " - Continuation")
    [] codec = "017" -> Ok(JoinWith(OneOf(WaypointDesc1, Char(v, 1)) \o
                                    OneOf(WaypointDesc2, Char(v, 2)) \o
                                    OneOf(WaypointDesc3, Char(v, 3)) \o
                                    OneOf(WaypointDesc4, Char(v, 4)), "\n"))
    [] codec = "020" -> LookupOrErr("R" :> "Right" @@ "L" :> "Left" @@
                                    "E" :> "Either" @@ " " :> "Either", v)
    [] codec = "021" -> LET s == Strip(v)
                        IN  IF s = "" THEN Ok("")
                            ELSE IF IsAlpha(s) THEN Lookup(LegTypes, s, Unknown) ELSE Err
    [] codec = "022" -> LET s == Strip(v)
                        IN  IF s = "" \/ IsAlpha(s) THEN Ok(s) ELSE Err
    [] codec \in {"023", "024", "025"} -> ShortIdent(v)
    [] codec = "026" -> LET s == Strip(v)
                        IN  IF s = "" THEN Ok("")
                            ELSE IF ~IsAlnum(s) \/ Len(s) > 4 THEN Err
                            ELSE IF Char(s, Len(s)) = "T" THEN Ok(s)
                            ELSE Numeral(s, FloatChars, Ok(Scale(s, 1)))
    [] codec = "027" -> LET s == Strip(v)
                        IN  IF s = "" THEN Ok("")
                            ELSE IF First(s) = "T"
                            THEN IF IsDigits(Rest(s)) THEN Ok(Scale(Rest(s), 1) \o " min")
                                 ELSE IF AllIn(Rest(s), FloatChars) THEN Unspecified ELSE Err
                            ELSE IF IsDigits(s) THEN Ok(Scale(s, 1) \o " nm")
                                 ELSE IF AllIn(s, FloatChars) THEN Unspecified ELSE Err
    [] codec = "032" -> IF ~IsDigits(v) THEN Unspecified
                        ELSE Ok((IF DigitVal(Char(v, 1)) * 10 + DigitVal(Char(v, 2)) > 50
                                 THEN "19" ELSE "20") \o SubSeq(v, 1, 2)
                                \o ", Release " \o SubSeq(v, 3, Len(v)))
    [] codec = "034" -> LET s == Strip(v)
                        IN  IF s = "" THEN Ok("")
                            ELSE IF IsDigits(s) THEN Ok(Scale(s, 2)) ELSE Ok(Unsupported(s))
    [] codec = "039" -> BlankOr(v, IF IsDigits(Rest(v)) THEN Ok(PadNum(Rest(v), 3) \o " " \o First(v))
                                   ELSE IF AllIn(Rest(v), IntChars) THEN Unspecified ELSE Err)
    [] codec = "042" -> IF Char(v, 1) \in DOMAIN WaypointType1 THEN Ok(WaypointType1[Char(v, 1)])
                        ELSE IF Char(v, 1) = "N" THEN Ok("NDB Navaid as Waypoint" \o Rest(v))
                        ELSE Lookup(WaypointType2, Char(v, 2), "Unknown Waypoint Type")
    [] codec = "043" -> Ok(Strip(v))
    [] codec = "045" -> Frequency(v)
    [] codec = "049" -> Lookup(LocalizerRefs, v, v)
    [] codec = "054" -> IF IsDigits(v) THEN Ok(DropZeros(v \o "00") \o " ft") ELSE Ok(v)
    [] codec = "062" -> Course(v)
    [] codec = "065" -> BlankOr(v, IF IsDigits(v)
                                   THEN Ok(Char(v, 1) \o "m " \o ToString(6 * DigitVal(Char(v, 2))) \o "s")
                                   ELSE Ok("Invalid Value: \"" \o v \o "\""))
    [] codec = "072" -> BlankOr(v, IF IsDigits(v) THEN Ok(v \o " knots (IAS)") ELSE Err)
    [] codec = "082" -> CASE Char(v, 2) = "B" -> Ok("HI and LO Altitude")
                          [] Char(v, 2) = "H" -> Ok("HI Altitude")
                          [] Char(v, 2) = "L" -> Ok("LO Altitude")
                          [] Char(v, 2) = " " -> Ok("Terminal Use Only")
                          [] OTHER -> IF Char(v, 1) = "R" THEN Ok("RNAV") ELSE Err
    [] codec = "091" -> Lookup(ApplicationTypes, v, "Unknown Application Type: " \o v)
    [] codec = "101" -> Lookup(CommTypes, v, Unknown)
    [] codec = "102" -> Lookup(RadarCodes, v, v)
    [] codec = "103" -> Frequency(v)
    [] codec = "104" -> Lookup(FreqUnits, v, Unknown)
    [] codec = "106" -> BlankOr(v, Lookup(ServiceCodes, v, Unknown))
    [] codec = "108" -> LookupOrErr(IfrCodes, v)
    [] codec = "112" -> Lookup(MarkerShapes, v, v)
    [] codec = "113" -> Lookup(PowerCodes, v, v)
    [] codec = "117" -> Lookup([F |-> "FIR", U |-> "UIR", B |-> "Combined FIR/UIR"], v, v)
    [] codec = "118" -> IF Char(v, 1) \in DOMAIN BoundaryVia
                        THEN Ok(BoundaryVia[Char(v, 1)] \o
                                (IF Char(v, 2) = "E" THEN ", End of description, return to origin point" ELSE ""))
                        ELSE Ok(Unsupported(v))
    [] codec = "135" -> Course(v)
    [] codec = "165" -> Lookup([M |-> "Magnetic", T |-> "True"], v, v)
    [] codec = "177" -> Lookup(PubMil, v, Unsupported(v))
    [] codec = "178" -> IF First(v) \in DOMAIN ZoneHours /\ IsDigits(Rest(v))
                        THEN Ok("GMT " \o ZoneHours[First(v)] \o ":" \o Rest(v)) ELSE Ok(Unsupported(v))
    [] codec = "179" -> Lookup(YesNo, v, Unsupported(v))
    [] codec = "181" -> Lookup(H24Codes, v, Unknown)
    [] codec = "182" -> LookupOrErr(GuardCodes, v)
    [] codec = "196" -> IF Char(v, 1) \in DOMAIN NameFormat1 THEN Ok(NameFormat1[Char(v, 1)])
                        ELSE Lookup(NameFormat2, Char(v, 2), "Unknown Name Format Indicator")
    [] codec = "198" -> Lookup(ModulationCodes, v, Unknown)
    [] codec = "199" -> BlankOr(v, Lookup(EmissionCodes, v, Unknown))
    [] codec = "269" -> BlankOr(v, IF IsDigits(v) THEN Ok(Scale(v, 1))
                                   ELSE IF AllIn(v, FloatChars) THEN Unspecified ELSE Err)
    [] codec = "270" -> IF v = " " THEN Ok(v) ELSE LookupOrErr(TchCodes, v)

Decode(codec, v, ident) == IF codec \in SpecialCodecs THEN Special(codec, v, ident) ELSE Ok(v)
=============================================================================
