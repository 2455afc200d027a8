------------------------------- MODULE Layouts -------------------------------
(***************************************************************************)
(* The record types of ARINC 424-18 chapter 4 that the library supports:   *)
(* how a record is recognised, and the layout of each primary and          *)
(* continuation record.  Columns are numbered from 1 as in the standard.   *)
(*   F(name, a, b, codec)  a field in columns a..b                         *)
(*   G(name, a, b, codec)  a field made of column a followed by column b   *)
(* The codec is the number of the chapter 5 field definition (Codecs.tla). *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

F(n, a, b, c) == [name |-> n, cols |-> <<<<a, b>>>>, codec |-> c]
G(n, a, b, c) == [name |-> n, cols |-> <<<<a, a>>, <<b, b>>>>, codec |-> c]

GridMORA_primary == <<
  F("Record Type",                                     1,   1, "002"),
  F("Section Code",                                    5,   6, "004"),
  F("Starting Latitude",                              14,  16, "141"),
  F("Starting Longitude",                             17,  20, "142"),
  F("MORA",                                           31,  33, "143"),
  F("MORA (2)",                                       34,  36, "143"),
  F("MORA (3)",                                       37,  39, "143"),
  F("MORA (4)",                                       40,  42, "143"),
  F("MORA (5)",                                       43,  45, "143"),
  F("MORA (6)",                                       46,  48, "143"),
  F("MORA (7)",                                       49,  51, "143"),
  F("MORA (8)",                                       52,  54, "143"),
  F("MORA (9)",                                       55,  57, "143"),
  F("MORA (10)",                                      58,  60, "143"),
  F("MORA (11)",                                      61,  63, "143"),
  F("MORA (12)",                                      64,  66, "143"),
  F("MORA (13)",                                      67,  69, "143"),
  F("MORA (14)",                                      70,  72, "143"),
  F("MORA (15)",                                      73,  75, "143"),
  F("MORA (16)",                                      76,  78, "143"),
  F("MORA (17)",                                      79,  81, "143"),
  F("MORA (18)",                                      82,  84, "143"),
  F("MORA (19)",                                      85,  87, "143"),
  F("MORA (21)",                                      88,  90, "143"),
  F("MORA (22)",                                      91,  93, "143"),
  F("MORA (23)",                                      94,  96, "143"),
  F("MORA (24)",                                      97,  99, "143"),
  F("MORA (25)",                                     100, 102, "143"),
  F("MORA (26)",                                     103, 105, "143"),
  F("MORA (27)",                                     106, 108, "143"),
  F("MORA (28)",                                     109, 111, "143"),
  F("MORA (29)",                                     112, 114, "143"),
  F("MORA (30)",                                     115, 117, "143"),
  F("MORA (31)",                                     118, 120, "143"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

VHFNavaid_cont == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  F("Section Code",                                    5,   6, "004"),
  F("Airport ICAO Identifier",                         7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("VOR Identifier",                                 14,  17, "033"),
  F("ICAO Code (2)",                                  20,  21, "014"),
  F("Continuation Record No",                         22,  22, "016"),
  F("Application Type",                               23,  23, "091"),
  F("Notes",                                          24,  92, "061"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

VHFNavaid_lim == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  F("Section Code",                                    5,   6, "004"),
  F("Airport ICAO Identifier",                         7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("VOR Identifier",                                 14,  17, "033"),
  F("ICAO Code (2)",                                  20,  21, "014"),
  F("Continuation Record No",                         22,  22, "016"),
  F("Application Type",                               23,  23, "091"),
  F("Navaid Limitation Code",                         24,  24, "205"),
  F("Component Affected Indicator",                   25,  25, "206"),
  F("Sequence Number",                                26,  27, "012"),
  F("Sector From/Sector To",                          28,  29, "207"),
  F("Distance Description",                           30,  30, "187"),
  F("Distance Limitation",                            31,  36, "208"),
  F("Altitude Description",                           37,  37, "029"),
  F("Altitude Limitation",                            38,  43, "029"),
  F("Sector From/Sector To (2)",                      44,  45, "207"),
  F("Distance Description (2)",                       46,  46, "187"),
  F("Distance Limitation (2)",                        47,  52, "208"),
  F("Altitude Description (2)",                       53,  53, "029"),
  F("Altitude Limitation (2)",                        54,  59, "209"),
  F("Sector From/Sector To (3)",                      60,  61, "207"),
  F("Distance Description (3)",                       62,  62, "187"),
  F("Distance Limitation (3)",                        63,  68, "208"),
  F("Altitude Description (3)",                       69,  69, "029"),
  F("Altitude Limitation (3)",                        70,  75, "209"),
  F("Sector From/Sector To (4)",                      76,  77, "207"),
  F("Distance Description (4)",                       78,  78, "187"),
  F("Distance Limitation (4)",                        79,  84, "208"),
  F("Altitude Description (4)",                       85,  85, "029"),
  F("Altitude Limitation (4)",                        86,  91, "209"),
  F("Sector From/Sector To (5)",                      92,  93, "207"),
  F("Distance Description (5)",                       94,  94, "187"),
  F("Distance Limitation (5)",                        95, 100, "208"),
  F("Altitude Description (5)",                      101, 101, "029"),
  F("Altitude Limitation (5)",                       102, 107, "209"),
  F("Sequence End Indicator",                        108, 108, "210"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

VHFNavaid_flight_plan0 == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  F("Section Code",                                    5,   6, "004"),
  F("Airport ICAO Identifier",                         7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("VOR Identifier",                                 14,  17, "033"),
  F("ICAO Code (2)",                                  20,  21, "014"),
  F("Continuation Record No",                         22,  22, "016"),
  F("Application Type",                               23,  23, "091"),
  F("FIR Identifier",                                 24,  27, "116"),
  F("UIR Identifier",                                 28,  31, "116"),
  F("Start/End Indicator",                            32,  32, "152"),
  F("Start/End Date",                                 33,  43, "153"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

VHFNavaid_sim == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  F("Section Code",                                    5,   6, "004"),
  F("Airport ICAO Identifier",                         7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("VOR Identifier",                                 14,  17, "033"),
  F("ICAO Code (2)",                                  20,  21, "014"),
  F("Continuation Record No",                         22,  22, "016"),
  F("Application Type",                               23,  23, "091"),
  F("Facility Characteristics",                       28,  32, "093"),
  F("Magnetic Variation",                             75,  79, "039"),
  F("Facility Elevation",                             80,  84, "092"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

VHFNavaid_primary == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  F("Section Code",                                    5,   6, "004"),
  F("Airport ICAO Identifier",                         7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("VOR Identifier",                                 14,  17, "033"),
  F("ICAO Code (2)",                                  20,  21, "014"),
  F("Continuation Record No",                         22,  22, "016"),
  F("Frequency",                                      23,  27, "034"),
  F("Class",                                          28,  32, "035"),
  F("VOR Latitude",                                   33,  41, "036"),
  F("VOR Longitude",                                  42,  51, "037"),
  F("DME Ident",                                      52,  55, "038"),
  F("DME Latitude",                                   56,  64, "036"),
  F("DME Longitude",                                  65,  74, "037"),
  F("Station Declination",                            75,  79, "066"),
  F("DME Elevation",                                  80,  84, "040"),
  F("Figure of Merit",                                85,  85, "149"),
  F("ILS/DME Bias",                                   86,  87, "090"),
  F("Frequency Protection",                           88,  90, "150"),
  F("Datum Code",                                     91,  93, "197"),
  F("VOR Name",                                       94, 123, "071"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

NDBNavaid_cont == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  F("Section Code",                                    5,   6, "004"),
  F("Airport ICAO Identifier",                         7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("NDB Identifier",                                 14,  17, "033"),
  F("ICAO Code (2)",                                  20,  21, "014"),
  F("Continuation Record No",                         22,  22, "016"),
  F("Application Type",                               23,  23, "091"),
  F("Notes",                                          24,  92, "061"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

NDBNavaid_flight_plan0 == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  F("Section Code",                                    5,   6, "004"),
  F("Airport ICAO Identifier",                         7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("NDB Identifier",                                 14,  17, "033"),
  F("ICAO Code (2)",                                  20,  21, "014"),
  F("Continuation Record No",                         22,  22, "016"),
  F("Application Type",                               23,  23, "091"),
  F("FIR Identifier",                                 24,  27, "116"),
  F("UIR Identifier",                                 28,  31, "116"),
  F("Start/End Indicator",                            32,  32, "152"),
  F("Start/End Date",                                 33,  43, "153"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

NDBNavaid_flight_plan1 == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  F("Section Code",                                    5,   6, "004"),
  F("Airport ICAO Identifier",                         7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("NDB Identifier",                                 14,  17, "033"),
  F("ICAO Code (2)",                                  20,  21, "014"),
  F("Continuation Record No",                         22,  22, "016"),
  F("NDB Frequency",                                  23,  27, "034"),
  F("NDB Class",                                      28,  32, "035"),
  F("NDB Latitude",                                   33,  41, "036"),
  F("NDB Longitude",                                  42,  51, "037"),
  F("Magnetic Variation",                             75,  79, "039"),
  F("Datum Code",                                     91,  93, "197"),
  F("NDB Name",                                       94, 123, "071"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

NDBNavaid_sim == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  F("Section Code",                                    5,   6, "004"),
  F("Airport ICAO Identifier",                         7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("NDB Identifier",                                 14,  17, "033"),
  F("ICAO Code (2)",                                  20,  21, "014"),
  F("Continuation Record No",                         22,  22, "016"),
  F("Application Type",                               23,  23, "091"),
  F("Facility Characteristics",                       28,  32, "093"),
  F("Facility Elevation",                             80,  84, "092"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

NDBNavaid_primary == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  F("Section Code",                                    5,   6, "004"),
  F("Airport ICAO Identifier",                         7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("NDB Identifier",                                 14,  17, "033"),
  F("ICAO Code (2)",                                  20,  21, "014"),
  F("Continuation Record No",                         22,  22, "016"),
  F("NDB Frequency",                                  23,  27, "034"),
  F("NDB Class",                                      28,  32, "035"),
  F("NDB Latitude",                                   33,  41, "036"),
  F("NDB Longitude",                                  42,  51, "037"),
  F("Magnetic Variation",                             75,  79, "039"),
  F("Datum Code",                                     91,  93, "197"),
  F("NDB Name",                                       94, 123, "071"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

EnrouteWaypoint_cont == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  F("Section Code",                                    5,   6, "004"),
  F("Region Code",                                     7,  10, "041"),
  F("ICAO Code",                                      11,  12, "014"),
  F("Waypoint Identifier",                            14,  18, "013"),
  F("ICAO Code (2)",                                  20,  21, "014"),
  F("Continuation Record No",                         22,  22, "016"),
  F("Application Type",                               23,  23, "091"),
  F("Notes",                                          24, 123, "061"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

EnrouteWaypoint_flight_plan0 == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  F("Section Code",                                    5,   6, "004"),
  F("Region Code",                                     7,  10, "041"),
  F("ICAO Code",                                      11,  12, "014"),
  F("Waypoint Identifier",                            14,  18, "013"),
  F("ICAO Code (2)",                                  20,  21, "014"),
  F("Continuation Record No",                         22,  22, "016"),
  F("Application Type",                               23,  23, "091"),
  F("FIR Identifier",                                 24,  27, "116"),
  F("UIR Identifier",                                 28,  31, "116"),
  F("Start/End Indicator",                            32,  32, "152"),
  F("Start/End Date",                                 33,  43, "153"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

EnrouteWaypoint_flight_plan1 == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  F("Section Code",                                    5,   6, "004"),
  F("Region Code",                                     7,  10, "041"),
  F("ICAO Code",                                      11,  12, "014"),
  F("Waypoint Identifier",                            14,  18, "013"),
  F("ICAO Code (2)",                                  20,  21, "014"),
  F("Continuation Record No",                         22,  22, "016"),
  F("Waypoint Type",                                  27,  29, "042"),
  F("Waypoint Usage",                                 30,  31, "082"),
  F("Waypoint Latitude",                              33,  41, "036"),
  F("Waypoint Longitude",                             42,  51, "037"),
  F("Dynamic Mag. Variation",                         75,  79, "039"),
  F("Datum Code",                                     85,  87, "197"),
  F("Name Format Indicator",                          96,  98, "196"),
  F("Waypoint Name / Desc",                           99, 123, "043"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

EnrouteWaypoint_primary == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  F("Section Code",                                    5,   6, "004"),
  F("Region Code",                                     7,  10, "041"),
  F("ICAO Code",                                      11,  12, "014"),
  F("Waypoint Identifier",                            14,  18, "013"),
  F("ICAO Code (2)",                                  20,  21, "014"),
  F("Continuation Record No",                         22,  22, "016"),
  F("Waypoint Type",                                  27,  29, "042"),
  F("Waypoint Usage",                                 30,  31, "082"),
  F("Waypoint Latitude",                              33,  41, "036"),
  F("Waypoint Longitude",                             42,  51, "037"),
  F("Dynamic Mag. Variation",                         75,  79, "039"),
  F("Datum Code",                                     85,  87, "197"),
  F("Name Format Indicator",                          96,  98, "196"),
  F("Waypoint Name / Desc",                           99, 123, "043"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

AirwaysMarker_cont == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  F("Section Code",                                    5,   6, "004"),
  F("Marker Identifier",                              14,  17, "110"),
  F("ICAO Code",                                      20,  21, "014"),
  F("Continuation Record No",                         22,  22, "016"),
  F("Application Type",                               23,  23, "091"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

AirwaysMarker_primary == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  F("Section Code",                                    5,   6, "004"),
  F("Marker Identifier",                              14,  17, "110"),
  F("ICAO Code",                                      20,  21, "014"),
  F("Continuation Record No",                         22,  22, "016"),
  F("Marker Code",                                    23,  26, "111"),
  F("Marker Shape",                                   28,  28, "112"),
  F("Marker Power",                                   29,  29, "113"),
  F("Marker Latitude",                                33,  41, "036"),
  F("Marker Longitude",                               42,  51, "037"),
  F("Minor Axis",                                     52,  55, "100"),
  F("Magnetic Variation",                             75,  79, "039"),
  F("Facility Elevation",                             80,  84, "092"),
  F("Datum Code",                                     85,  87, "197"),
  F("Marker Name",                                    94, 123, "071"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

HoldingPattern_cont == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  F("Section Code",                                    5,   6, "004"),
  F("Region Code",                                     7,  10, "041"),
  F("ICAO Code",                                      11,  12, "014"),
  F("Duplicate Identifier",                           28,  29, "114"),
  F("Fix Identifier",                                 30,  34, "013"),
  F("ICAO Code (2)",                                  35,  36, "014"),
  F("Section Code (2)",                               37,  38, "004"),
  F("Continuation Record No",                         39,  39, "016"),
  F("Application Type",                               40,  40, "091"),
  F("Notes",                                          41, 109, "061"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

HoldingPattern_primary == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  F("Section Code",                                    5,   6, "004"),
  F("Region Code",                                     7,  10, "041"),
  F("ICAO Code",                                      11,  12, "014"),
  F("Duplicate Identifier",                           28,  29, "114"),
  F("Fix Identifier",                                 30,  34, "013"),
  F("ICAO Code (2)",                                  35,  36, "014"),
  F("Section Code (2)",                               37,  38, "004"),
  F("Continuation Record No",                         39,  39, "016"),
  F("Inbound Holding Course",                         40,  43, "062"),
  F("Turn Direction",                                 44,  44, "063"),
  F("Leg Length",                                     45,  47, "064"),
  F("Leg Time",                                       48,  49, "065"),
  F("Minimum Altitude",                               50,  54, "030"),
  F("Maximum Altitude",                               55,  59, "127"),
  F("Holding Speed",                                  60,  62, "175"),
  F("RNP",                                            63,  65, "211"),
  F("Arc Radius",                                     66,  71, "204"),
  F("Name",                                           99, 123, "060"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

EnrouteAirways_cont == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  F("Section Code",                                    5,   6, "004"),
  F("Route Identifier",                               14,  18, "008"),
  F("Sequence Number",                                26,  29, "012"),
  F("Fix Identifier",                                 30,  34, "013"),
  F("ICAO Code",                                      35,  36, "014"),
  F("Section Code (2)",                               37,  38, "004"),
  F("Continuation Record No",                         39,  39, "016"),
  F("Application Type",                               40,  40, "091"),
  F("Notes",                                          41, 109, "061"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

EnrouteAirways_flight_plan0 == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  F("Section Code",                                    5,   6, "004"),
  F("Route Identifier",                               14,  18, "008"),
  F("Sequence Number",                                26,  29, "012"),
  F("Fix Identifier",                                 30,  34, "013"),
  F("ICAO Code",                                      35,  36, "014"),
  F("Section Code (2)",                               37,  38, "004"),
  F("Continuation Record No",                         39,  39, "016"),
  F("Application Type",                               40,  40, "091"),
  F("Start/End Indicator",                            41,  41, "152"),
  F("Start/End Date",                                 42,  52, "153"),
  F("Restr. Air ICAO Code",                           67,  68, "014"),
  F("Restr. Air Type",                                69,  69, "128"),
  F("Restr. Air Designation",                         70,  79, "129"),
  F("Restr. Air Multiple Code",                       80,  80, "130"),
  F("Restr. Air ICAO Code (2)",                       81,  82, "014"),
  F("Restr. Air Type (2)",                            83,  83, "128"),
  F("Restr. Air Designation (2)",                     84,  93, "129"),
  F("Restr. Air Multiple Code (2)",                   94,  94, "130"),
  F("Restr. Air ICAO Code (3)",                       95,  96, "014"),
  F("Restr. Air Type (3)",                            97,  97, "128"),
  F("Restr. Air Designation (3)",                     98, 107, "129"),
  F("Restr. Air Multiple Code (3)",                  108, 108, "130"),
  F("Restr. Air ICAO Code (4)",                      109, 110, "014"),
  F("Restr. Air Type (4)",                           111, 111, "128"),
  F("Restr. Air Designation (4)",                    112, 121, "129"),
  F("Restr. Air Link Continuation",                  123, 123, "174"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

EnrouteAirways_flight_plan1 == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  F("Section Code",                                    5,   6, "004"),
  F("Route Identifier",                               14,  18, "008"),
  F("Sequence Number",                                26,  29, "012"),
  F("Fix Identifier",                                 30,  34, "013"),
  F("ICAO Code",                                      35,  36, "014"),
  F("Section Code (2)",                               37,  38, "004"),
  F("Continuation Record No",                         39,  39, "016"),
  F("Waypoint Desc Code",                             40,  43, "017"),
  F("Boundary Code",                                  44,  44, "018"),
  F("Route Type",                                     45,  45, "007"),
  F("Level",                                          46,  46, "019"),
  F("Direction Restriction",                          47,  47, "115"),
  F("Cruise Table Indicator",                         48,  49, "134"),
  F("EU Indicator",                                   50,  50, "164"),
  F("Recommended NAVAID",                             51,  54, "023"),
  F("ICAO Code (2)",                                  55,  56, "014"),
  F("RNP",                                            57,  59, "211"),
  F("Theta",                                          63,  66, "024"),
  F("Rho",                                            67,  70, "025"),
  F("Outbound Magnetic Course",                       71,  74, "026"),
  F("Route Distance From",                            75,  78, "027"),
  F("Inbound Magnetic Course",                        79,  82, "028"),
  F("Minimum Altitude",                               84,  88, "030"),
  F("Minimum Altitude (2)",                           89,  93, "030"),
  F("Maximum Altitude",                               94,  98, "127"),
  F("Fix Radius Transition Indicator",                99, 101, "254"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

EnrouteAirways_primary == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  F("Section Code",                                    5,   6, "004"),
  F("Route Identifier",                               14,  18, "008"),
  F("Sequence Number",                                26,  29, "012"),
  F("Fix Identifier",                                 30,  34, "013"),
  F("ICAO Code",                                      35,  36, "014"),
  F("Section Code (2)",                               37,  38, "004"),
  F("Continuation Record No",                         39,  39, "016"),
  F("Waypoint Desc Code",                             40,  43, "017"),
  F("Boundary Code",                                  44,  44, "018"),
  F("Route Type",                                     45,  45, "007"),
  F("Level",                                          46,  46, "019"),
  F("Direction Restriction",                          47,  47, "115"),
  F("Cruise Table Indicator",                         48,  49, "134"),
  F("EU Indicator",                                   50,  50, "164"),
  F("Recommended NAVAID",                             51,  54, "023"),
  F("ICAO Code (2)",                                  55,  56, "014"),
  F("RNP",                                            57,  59, "211"),
  F("Theta",                                          63,  66, "024"),
  F("Rho",                                            67,  70, "025"),
  F("Outbound Magnetic Course",                       71,  74, "026"),
  F("Route Distance From",                            75,  78, "027"),
  F("Inbound Magnetic Course",                        79,  82, "028"),
  F("Minimum Altitude",                               84,  88, "030"),
  F("Minimum Altitude (2)",                           89,  93, "030"),
  F("Maximum Altitude",                               94,  98, "127"),
  F("Fix Radius Transition Indicator",                99, 101, "254"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

PreferredRoute_cont == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  F("Section Code",                                    5,   6, "004"),
  F("Route Identifier",                               14,  23, "008"),
  F("Preferred Route Use Ind",                        24,  25, "220"),
  F("Sequence Number",                                26,  29, "012"),
  F("Continuation Record No",                         39,  39, "016"),
  F("Application Type",                               40,  40, "091"),
  F("Notes",                                          41, 109, "061"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

PreferredRoute_timeop == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  F("Section Code",                                    5,   6, "004"),
  F("Route Identifier",                               14,  23, "008"),
  F("Preferred Route Use Ind",                        24,  25, "220"),
  F("Sequence Number",                                26,  29, "012"),
  F("Continuation Record No",                         39,  39, "016"),
  F("Application Type",                               40,  40, "091"),
  F("Time Code",                                      41,  41, "131"),
  F("Time Indicator",                                 42,  42, "138"),
  F("Time of Operation",                              43,  52, "195"),
  F("Time of Operation (2)",                          53,  62, "195"),
  F("Time of Operation (3)",                          63,  72, "195"),
  F("Time of Operation (4)",                          73,  82, "195"),
  F("Time of Operation (5)",                          83,  92, "195"),
  F("Time of Operation (6)",                          93, 102, "195"),
  F("Time of Operation (7)",                         103, 112, "195"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

PreferredRoute_primary == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  F("Section Code",                                    5,   6, "004"),
  F("Route Identifier",                               14,  23, "008"),
  F("Preferred Route Use Ind",                        24,  25, "220"),
  F("Sequence Number",                                26,  29, "012"),
  F("Continuation Record No",                         39,  39, "016"),
  F("To Fix Identifier",                              40,  44, "083"),
  F("ICAO Code",                                      45,  46, "014"),
  F("Section Code (2)",                               47,  48, "004"),
  F("VIA Code",                                       49,  51, "077"),
  F("SID/STAR/AWY Ident",                             52,  57, "078"),
  F("AREA Code",                                      58,  60, "003"),
  F("Level",                                          61,  61, "019"),
  F("Route Type",                                     62,  62, "007"),
  F("Initial Airport/Fix",                            63,  67, "194"),
  F("ICAO Code (2)",                                  68,  69, "014"),
  F("Section Code (3)",                               70,  71, "004"),
  F("Terminus Airport/Fix",                           72,  76, "194"),
  F("ICAO Code (3)",                                  77,  78, "014"),
  F("Section Code (4)",                               79,  80, "004"),
  F("Minimum Altitude",                               81,  85, "030"),
  F("Maximum Altitude",                               86,  90, "127"),
  F("Time Code",                                      91,  91, "131"),
  F("Aircraft Use Group",                             92,  93, "221"),
  F("Direction Restriction",                          94,  94, "115"),
  F("Altitude Description",                           95,  95, "029"),
  F("Altitude One",                                   96, 100, "030"),
  F("Altitude Two",                                  101, 105, "030"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

EnrouteAirwaysRestriction_primary_altitude_exclude == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  F("Section Code",                                    5,   6, "004"),
  F("Route Identifier",                                7,  11, "008"),
  F("Restriction Identifier",                         13,  15, "154"),
  F("Restriction Type",                               16,  17, "201"),
  F("Continuation Record No",                         18,  18, "016"),
  F("Start Fix Identifier",                           19,  23, "013"),
  F("Start Fix ICAO Code",                            24,  25, "014"),
  F("Start Fix Section Code",                         26,  27, "004"),
  F("End Fix Identifier",                             28,  32, "013"),
  F("End Fix ICAO Code",                              33,  34, "014"),
  F("End Fix Section Code",                           35,  36, "004"),
  F("Start Date",                                     38,  44, "157"),
  F("End Date",                                       45,  51, "157"),
  F("Time Code",                                      52,  52, "131"),
  F("Time Indicator",                                 53,  53, "138"),
  F("Time of Operation",                              54,  63, "195"),
  F("Time of Operation (2)",                          64,  73, "195"),
  F("Time of Operation (3)",                          74,  83, "195"),
  F("Time of Operation (4)",                          84,  93, "195"),
  F("Exclusion Indicator",                            94,  94, "202"),
  F("Units of Altitude",                              95,  95, "160"),
  F("Restriction Altitude",                           96,  98, "161"),
  F("Block Indicator",                                99,  99, "203"),
  F("Restriction Altitude (2)",                      100, 102, "161"),
  F("Block Indicator (2)",                           103, 103, "203"),
  F("Restriction Altitude (3)",                      104, 106, "161"),
  F("Block Indicator (3)",                           107, 107, "203"),
  F("Restriction Altitude (4)",                      108, 110, "161"),
  F("Block Indicator (4)",                           111, 111, "203"),
  F("Restriction Altitude (5)",                      112, 114, "161"),
  F("Block Indicator (5)",                           115, 115, "203"),
  F("Restriction Altitude (6)",                      116, 118, "161"),
  F("Block Indicator (6)",                           119, 119, "203"),
  F("Restriction Altitude (7)",                      120, 122, "161"),
  F("Block Indicator (7)",                           123, 123, "203"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

EnrouteAirwaysRestriction_primary_cruise_table == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  F("Section Code",                                    5,   6, "004"),
  F("Route Identifier",                                7,  11, "008"),
  F("Restriction Identifier",                         13,  15, "154"),
  F("Restriction Type",                               16,  17, "201"),
  F("Continuation Record No",                         18,  18, "016"),
  F("Start Fix Identifier",                           19,  23, "013"),
  F("Start Fix ICAO Code",                            24,  25, "014"),
  F("Start Fix Section Code",                         26,  27, "004"),
  F("End Fix Identifier",                             28,  32, "013"),
  F("End Fix ICAO Code",                              33,  34, "014"),
  F("End Fix Section Code",                           35,  36, "004"),
  F("Start Date",                                     38,  44, "157"),
  F("End Date",                                       45,  51, "157"),
  F("Time Code",                                      52,  52, "131"),
  F("Time Indicator",                                 53,  53, "138"),
  F("Time of Operation",                              54,  63, "195"),
  F("Time of Operation (2)",                          64,  73, "195"),
  F("Time of Operation (3)",                          74,  83, "195"),
  F("Time of Operation (4)",                          84,  93, "195"),
  F("Cruise Table Ident",                             94,  95, "134"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

EnrouteAirwaysRestriction_primary_seasonal_closure == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  F("Section Code",                                    5,   6, "004"),
  F("Route Identifier",                                7,  11, "008"),
  F("Restriction Identifier",                         13,  15, "154"),
  F("Restriction Type",                               16,  17, "201"),
  F("Continuation Record No",                         18,  18, "016"),
  F("Start Fix Identifier",                           19,  23, "013"),
  F("Start Fix ICAO Code",                            24,  25, "014"),
  F("Start Fix Section Code",                         26,  27, "004"),
  F("End Fix Identifier",                             28,  32, "013"),
  F("End Fix ICAO Code",                              33,  34, "014"),
  F("End Fix Section Code",                           35,  36, "004"),
  F("Start Date",                                     38,  44, "157"),
  F("End Date",                                       45,  51, "157"),
  F("Time Code",                                      52,  52, "131"),
  F("Time Indicator",                                 53,  53, "138"),
  F("Time of Operation",                              54,  63, "195"),
  F("Time of Operation (2)",                          64,  73, "195"),
  F("Time of Operation (3)",                          74,  83, "195"),
  F("Time of Operation (4)",                          84,  93, "195"),
  F("Cruise Table Ident",                             94,  95, "134"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

EnrouteAirwaysRestriction_primary_note_restriction == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  F("Section Code",                                    5,   6, "004"),
  F("Route Identifier",                                7,  11, "008"),
  F("Restriction Identifier",                         13,  15, "154"),
  F("Restriction Type",                               16,  17, "201"),
  F("Continuation Record No",                         18,  18, "016"),
  F("Start Fix Identifier",                           19,  23, "013"),
  F("Start Fix ICAO Code",                            24,  25, "014"),
  F("Start Fix Section Code",                         26,  27, "004"),
  F("End Fix Identifier",                             28,  32, "013"),
  F("End Fix ICAO Code",                              33,  34, "014"),
  F("End Fix Section Code",                           35,  36, "004"),
  F("Start Date",                                     38,  44, "157"),
  F("End Date",                                       45,  51, "157"),
  F("Restriction Notes",                              52, 120, "163"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

EnrouteAirwaysRestriction_cont_altitude_exclude == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  F("Section Code",                                    5,   6, "004"),
  F("Route Identifier",                                7,  11, "008"),
  F("Restriction Identifier",                         13,  15, "154"),
  F("Restriction Type",                               16,  17, "201"),
  F("Continuation Record No",                         18,  18, "016"),
  F("Application Type",                               19,  19, "091"),
  F("Time Code",                                      52,  52, "131"),
  F("Time Indicator",                                 53,  53, "138"),
  F("Time of Operation",                              54,  63, "195"),
  F("Time of Operation (2)",                          64,  73, "195"),
  F("Time of Operation (3)",                          74,  83, "195"),
  F("Time of Operation (4)",                          84,  93, "195"),
  F("Exclusion Operator",                             94,  94, "202"),
  F("Units of Altitude",                              95,  95, "160"),
  F("Restriction Altitude",                           96,  98, "161"),
  F("Block Indicator",                                99,  99, "203"),
  F("Restriction Altitude (2)",                      100, 102, "161"),
  F("Block Indicator (2)",                           103, 103, "203"),
  F("Restriction Altitude (3)",                      104, 106, "161"),
  F("Block Indicator (3)",                           107, 107, "203"),
  F("Restriction Altitude (4)",                      108, 110, "161"),
  F("Block Indicator (4)",                           111, 111, "203"),
  F("Restriction Altitude (5)",                      112, 114, "161"),
  F("Block Indicator (5)",                           115, 115, "203"),
  F("Restriction Altitude (6)",                      116, 118, "161"),
  F("Block Indicator (6)",                           119, 119, "203"),
  F("Restriction Altitude (7)",                      120, 122, "161"),
  F("Block Indicator (7)",                           123, 123, "203"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

EnrouteAirwaysRestriction_cont_cruise_table == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  F("Section Code",                                    5,   6, "004"),
  F("Route Identifier",                                7,  11, "008"),
  F("Restriction Identifier",                         13,  15, "154"),
  F("Restriction Type",                               16,  17, "201"),
  F("Continuation Record No",                         18,  18, "016"),
  F("Application Type",                               19,  19, "091"),
  F("Time Code",                                      52,  52, "131"),
  F("Time Indicator",                                 53,  53, "138"),
  F("Time of Operation",                              54,  63, "195"),
  F("Time of Operation (2)",                          64,  73, "195"),
  F("Time of Operation (3)",                          74,  83, "195"),
  F("Time of Operation (4)",                          84,  93, "195"),
  F("Cruise Table Ident",                             94,  95, "134"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

EnrouteAirwaysRestriction_cont_note_restriction == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  F("Section Code",                                    5,   6, "004"),
  F("Route Identifier",                                7,  11, "008"),
  F("Restriction Identifier",                         13,  15, "154"),
  F("Restriction Type",                               16,  17, "201"),
  F("Continuation Record No",                         18,  18, "016"),
  F("Application Type",                               19,  19, "091"),
  F("Restriction Notes",                              52, 120, "163"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

EnrouteCommunications_cont == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  F("Section Code",                                    5,   6, "004"),
  F("FIR/RDO Ident",                                   7,  10, "190"),
  F("FIR/UIR Address",                                11,  14, "151"),
  F("Indicator",                                      15,  15, "117"),
  F("Remote Name",                                    19,  43, "189"),
  F("Communications Type",                            44,  46, "101"),
  F("Comm Frequency",                                 47,  53, "103"),
  F("Guard/Transmit",                                 54,  54, "182"),
  F("Frequency Units",                                55,  55, "104"),
  F("Continuation Record No",                         56,  56, "016"),
  F("Application Type",                               57,  57, "091"),
  F("Time Code",                                      58,  58, "131"),
  F("NOTAM",                                          59,  59, "132"),
  F("Time Indicator",                                 60,  60, "138"),
  F("Time of Operation",                              61,  70, "195"),
  F("Call Sign",                                      94, 123, "105"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

EnrouteCommunications_timeop == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  F("Section Code",                                    5,   6, "004"),
  F("FIR/RDO Ident",                                   7,  10, "190"),
  F("FIR/UIR Address",                                11,  14, "151"),
  F("Indicator",                                      15,  15, "117"),
  F("Remote Name",                                    19,  43, "189"),
  F("Communications Type",                            44,  46, "101"),
  F("Comm Frequency",                                 47,  53, "103"),
  F("Guard/Transmit",                                 54,  54, "182"),
  F("Frequency Units",                                55,  55, "104"),
  F("Continuation Record No",                         56,  56, "016"),
  F("Application Type",                               57,  57, "091"),
  F("Time of Operation",                              61,  70, "195"),
  F("Time of Operation (2)",                          71,  80, "195"),
  F("Time of Operation (3)",                          81,  90, "195"),
  F("Time of Operation (4)",                          91, 100, "195"),
  F("Time of Operation (5)",                         101, 110, "195"),
  F("Time of Operation (6)",                         111, 120, "195"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

EnrouteCommunications_primary == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  F("Section Code",                                    5,   6, "004"),
  F("FIR/RDO Ident",                                   7,  10, "190"),
  F("FIR/UIR Address",                                11,  14, "151"),
  F("Indicator",                                      15,  15, "117"),
  F("Remote Name",                                    19,  43, "189"),
  F("Communications Type",                            44,  46, "101"),
  F("Comm Frequency",                                 47,  53, "103"),
  F("Guard/Transmit",                                 54,  54, "182"),
  F("Frequency Units",                                55,  55, "104"),
  F("Continuation Record No",                         56,  56, "016"),
  F("Service Indicator",                              57,  59, "106"),
  F("Radar Service",                                  60,  60, "102"),
  F("Modulation",                                     61,  61, "198"),
  F("Signal Emission",                                62,  62, "199"),
  F("Latitude",                                       63,  71, "036"),
  F("Longitude",                                      72,  81, "037"),
  F("Magnetic Variation",                             82,  86, "039"),
  F("Facility Elevation",                             87,  91, "092"),
  F("H24 Indicator",                                  92,  92, "181"),
  F("Altitude Description",                           93,  93, "029"),
  F("Communication Altitude",                         94,  98, "184"),
  F("Communication Altitude (2)",                     99, 103, "184"),
  F("Remote Facility",                               104, 107, "200"),
  F("ICAO Code",                                     108, 109, "014"),
  F("Section Code (2)",                              110, 111, "004"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

Heliport_cont == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Heliport Identifier",                             7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("ATA/IATA Designator",                            14,  16, "107"),
  F("PAD Identifier",                                 17,  21, "180"),
  F("Continuation Record No",                         22,  22, "016"),
  F("Application Type",                               23,  23, "091"),
  F("Notes",                                          24,  92, "061"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

Heliport_flight0 == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Heliport Identifier",                             7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("ATA/IATA Designator",                            14,  16, "107"),
  F("PAD Identifier",                                 17,  21, "180"),
  F("Continuation Record No",                         22,  22, "016"),
  F("Application Type",                               23,  23, "091"),
  F("FIR Identifier",                                 24,  27, "116"),
  F("UIR Identifier",                                 28,  31, "116"),
  F("Start/End Indicator",                            32,  32, "152"),
  F("Start/End Date/Time",                            33,  43, "153"),
  F("Controlled A/S Indicator",                       67,  67, "217"),
  F("Controlled A/S Airport Indentifier",             68,  71, "006"),
  F("Controlled A/S Airport ICAO",                    72,  73, "014"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

Heliport_flight1 == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Heliport Identifier",                             7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("ATA/IATA Designator",                            14,  16, "107"),
  F("PAD Identifier",                                 17,  21, "180"),
  F("Continuation Record No",                         22,  22, "016"),
  F("Application Type",                               23,  23, "091"),
  F("Notes",                                          24,  92, "061"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

Heliport_primary == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Heliport Identifier",                             7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("ATA/IATA Designator",                            14,  16, "107"),
  F("PAD Identifier",                                 17,  21, "180"),
  F("Continuation Record No",                         22,  22, "016"),
  F("Speed Limit Altitude",                           23,  27, "073"),
  F("Datum Code",                                     28,  30, "197"),
  F("IFR Indicator",                                  31,  31, "108"),
  F("Latitude",                                       33,  41, "036"),
  F("Longitude",                                      42,  51, "037"),
  F("Magnetic Variation",                             52,  56, "039"),
  F("Heliport Elevation",                             57,  61, "055"),
  F("Speed Limit",                                    62,  64, "072"),
  F("Recommended VHF Navaid",                         65,  68, "023"),
  F("ICAO Code (2)",                                  69,  70, "014"),
  F("Transition Altitude",                            71,  75, "053"),
  F("Transition Level",                               76,  80, "053"),
  F("Public Military Indicator",                      81,  81, "177"),
  F("Time Zone",                                      82,  84, "178"),
  F("Daylight Indicator",                             85,  85, "179"),
  F("Pad Dimensions",                                 86,  91, "176"),
  F("Magnetic/True Indicator",                        92,  92, "165"),
  F("Heliport Name",                                  94, 123, "071"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

HeliportTerminalWaypoint_cont == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Heliport Identifier",                             7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("Waypoint Identifier",                            14,  18, "013"),
  F("ICAO Code (2)",                                  20,  21, "014"),
  F("Continuation Record No",                         22,  22, "016"),
  F("Application Type",                               23,  23, "091"),
  F("Notes",                                          24,  92, "061"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

HeliportTerminalWaypoint_flight0 == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Heliport Identifier",                             7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("Waypoint Identifier",                            14,  18, "013"),
  F("ICAO Code (2)",                                  20,  21, "014"),
  F("Continuation Record No",                         22,  22, "016"),
  F("Application Type",                               23,  23, "091"),
  F("FIR Identifier",                                 24,  27, "116"),
  F("UIR Identifier",                                 28,  31, "116"),
  F("Start/End Indicator",                            32,  32, "152"),
  F("Start/End Date",                                 33,  43, "153"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

HeliportTerminalWaypoint_flight1 == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Heliport Identifier",                             7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("Waypoint Identifier",                            14,  18, "013"),
  F("ICAO Code (2)",                                  20,  21, "014"),
  F("Continuation Record No",                         22,  22, "016"),
  F("Waypoint Type",                                  27,  29, "042"),
  F("Waypoint Usage",                                 30,  31, "082"),
  F("Waypoint Latitude",                              33,  41, "036"),
  F("Waypoint Longitude",                             42,  51, "037"),
  F("Dynamic Magnetic Variation",                     75,  79, "039"),
  F("Datum Code",                                     85,  87, "197"),
  F("Name Format Indicator",                          96,  98, "196"),
  F("Waypoint Name/Description",                      99, 123, "043"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

HeliportTerminalWaypoint_primary == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Heliport Identifier",                             7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("Waypoint Identifier",                            14,  18, "013"),
  F("ICAO Code (2)",                                  20,  21, "014"),
  F("Continuation Record No",                         22,  22, "016"),
  F("Waypoint Type",                                  27,  29, "042"),
  F("Waypoint Usage",                                 30,  31, "082"),
  F("Waypoint Latitude",                              33,  41, "036"),
  F("Waypoint Longitude",                             42,  51, "037"),
  F("Dynamic Magnetic Variation",                     75,  79, "039"),
  F("Datum Code",                                     85,  87, "197"),
  F("Name Format Indicator",                          96,  98, "196"),
  F("Waypoint Name/Description",                      99, 123, "043"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

SIDSTARApproach_ext == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Airport Identifier",                              7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("SID/STAR/Approach Identifier",                   14,  19, "009"),
  F("Route Type",                                     20,  20, "007"),
  F("Transition Identifier",                          21,  25, "011"),
  F("Sequence Number",                                27,  29, "012"),
  F("Fix Identifier",                                 30,  34, "013"),
  F("ICAO Code (2)",                                  35,  36, "014"),
  F("Section Code (2)",                               37,  38, "004"),
  F("Continuation Record No",                         39,  39, "016"),
  F("Application Type",                               40,  40, "091"),
  F("CAT A Decision Height",                          41,  44, "170"),
  F("CAT B Decision Height",                          45,  48, "170"),
  F("CAT C Decision Height",                          49,  52, "170"),
  F("CAT D Decision Height",                          53,  56, "170"),
  F("CAT A Minimum Descent Altitude",                 57,  60, "171"),
  F("CAT B Minimum Descent Altitude",                 61,  64, "171"),
  F("CAT C Minimum Descent Altitude",                 65,  68, "171"),
  F("CAT D Minimum Descent Altitude",                 69,  72, "171"),
  F("Procedure TCH",                                  73,  75, "067"),
  F("Localizer Only Altitude Desc",                   76,  76, "029"),
  F("Localizer Only Altitude",                        77,  81, "030"),
  F("Localizer Only Vertical Angle",                  82,  85, "070"),
  F("RNP",                                            90,  92, "211"),
  F("Apch Route Qualifier 1",                        119, 119, "007"),
  F("Apch Route Qualifier 2",                        120, 120, "007"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

SIDSTARApproach_flight0 == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Airport Identifier",                              7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("SID/STAR/Approach Identifier",                   14,  19, "009"),
  F("Route Type",                                     20,  20, "007"),
  F("Transition Identifier",                          21,  25, "011"),
  F("Sequence Number",                                27,  29, "012"),
  F("Fix Identifier",                                 30,  34, "013"),
  F("ICAO Code (2)",                                  35,  36, "014"),
  F("Section Code (2)",                               37,  38, "004"),
  F("Continuation Record No",                         39,  39, "016"),
  F("Application Type",                               40,  40, "091"),
  F("Start/End Indicator",                            41,  41, "152"),
  F("Start/End Date",                                 42,  52, "153"),
  F("Leg Distance",                                   75,  78, "260"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

SIDSTARApproach_data == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Airport Identifier",                              7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("SID/STAR/Approach Identifier",                   14,  19, "009"),
  F("Route Type",                                     20,  20, "007"),
  F("Transition Identifier",                          21,  25, "011"),
  F("Sequence Number",                                27,  29, "012"),
  F("Fix Identifier",                                 30,  34, "013"),
  F("ICAO Code (2)",                                  35,  36, "014"),
  F("Section Code (2)",                               37,  38, "004"),
  F("Continuation Record No",                         39,  39, "016"),
  F("Application Type",                               40,  40, "091"),
  F("FAS Block Provided",                             41,  41, "276"),
  F("FAS Block Provided Level of Service Name",       42,  51, "275"),
  F("LNAV/VNAV Authorized for SBAS",                  52,  52, "276"),
  F("LNAV/VNAV Level of Service Name",                53,  62, "275"),
  F("LNAV Authorized for SBAS",                       63,  63, "276"),
  F("LNAV Level of Service Name",                     64,  73, "275"),
  F("Apch Route Qualifier 1",                        119, 119, "007"),
  F("Apch Route Qualifier 2",                        120, 120, "007"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

SIDSTARApproach_primary == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Airport Identifier",                              7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("SID/STAR/Approach Identifier",                   14,  19, "009"),
  F("Route Type",                                     20,  20, "007"),
  F("Transition Identifier",                          21,  25, "011"),
  F("Sequence Number",                                27,  29, "012"),
  F("Fix Identifier",                                 30,  34, "013"),
  F("ICAO Code (2)",                                  35,  36, "014"),
  F("Section Code (2)",                               37,  38, "004"),
  F("Continuation Record No",                         39,  39, "016"),
  F("Waypoint Description Code",                      40,  43, "017"),
  F("Turn Direction",                                 44,  44, "020"),
  F("RNP",                                            45,  47, "211"),
  F("Path and Termination",                           48,  49, "021"),
  F("Turn Direction Valid",                           50,  50, "022"),
  F("Recommended Navaid",                             51,  54, "023"),
  F("ICAO Code (3)",                                  55,  56, "014"),
  F("Arc Radius",                                     57,  62, "204"),
  F("Theta",                                          63,  66, "024"),
  F("Rho",                                            67,  70, "025"),
  F("Magnetic Course",                                71,  74, "026"),
  F("Route / Holding Distance or Time",               75,  78, "027"),
  F("Recommended Navaid (2)",                         79,  80, "004"),
  F("Altitude Description",                           83,  83, "029"),
  F("ATC Indicator",                                  84,  84, "081"),
  F("Altitude",                                       85,  89, "030"),
  F("Altitude (2)",                                   90,  94, "030"),
  F("Transition Altitude",                            95,  99, "053"),
  F("Speed Limit",                                   100, 102, "072"),
  F("Vertical Angle",                                103, 106, "070"),
  F("Center Fix or TAA Procedure Turn Indicator",    107, 111, "144"),
  F("Multiple Code or TAA Sector Identifier",        112, 112, "130"),
  F("ICAO Code (4)",                                 113, 114, "014"),
  F("Section Code (3)",                              115, 116, "004"),
  F("GNSS/FMS Indication",                           117, 117, "222"),
  F("Speed Limit Description",                       118, 118, "261"),
  F("Apch Route Qualifier 1",                        119, 119, "007"),
  F("Apch Route Qualifier 2",                        120, 120, "007"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

HeliportTAA_cont == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Heliport Identifier",                             7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("Approach Identifier",                            14,  19, "010"),
  F("TAA Sector Identifier",                          20,  20, "272"),
  F("TAA Procedure Turn",                             21,  24, "271"),
  F("TAA IAF Waypoint",                               30,  34, "273"),
  F("ICAO Code (2)",                                  11,  12, "014"),
  F("Section Code (2)",                               37,  38, "004"),
  F("Continuation Record No",                         39,  39, "016"),
  F("Application Notes",                              40,  40, "091"),
  F("Notes",                                          51, 109, "061"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

HeliportTAA_primary == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Heliport Identifier",                             7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("Approach Identifier",                            14,  19, "010"),
  F("TAA Waypoint",                                   20,  24, "273"),
  F("TAA Procedure Turn",                             21,  24, "271"),
  F("ICAO Code (2)",                                  25,  26, "014"),
  F("Section Code (2)",                               27,  28, "004"),
  F("TAA Fix Position Indicator",                     29,  29, "272"),
  F("Continuation Record No",                         30,  30, "016"),
  F("Mag/True Indicator",                             41,  41, "165"),
  F("Sector Radius",                                  42,  45, "274"),
  F("Sector Bearing",                                 46,  51, "146"),
  F("Sector Minimum Altitude",                        52,  54, "147"),
  F("Sector Radius (2)",                              55,  58, "274"),
  F("Sector Bearing (2)",                             59,  64, "146"),
  F("Sector Minimum Altitude (2)",                    65,  67, "147"),
  F("Sector Radius (3)",                              68,  71, "274"),
  F("Sector Bearing (3)",                             72,  77, "146"),
  F("Sector Minimum Altitude (3)",                    78,  80, "147"),
  F("Sector Radius (4)",                              81,  84, "274"),
  F("Sector Bearing (4)",                             85,  90, "146"),
  F("Sector Minimum Altitude (4)",                    91,  93, "147"),
  F("Sector Radius (5)",                              94,  97, "274"),
  F("Sector Bearing (5)",                             98, 103, "146"),
  F("Sector Minimum Altitude (5)",                   104, 106, "147"),
  F("Sector Radius (6)",                             107, 110, "274"),
  F("Sector Bearing (6)",                            111, 116, "146"),
  F("Sector Minimum Altitude (6)",                   117, 119, "147"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

HeliportMSA_cont == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Heliport Identifier",                             7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("MSA Center",                                     14,  17, "144"),
  F("ICAO Code (2)",                                  19,  20, "014"),
  F("Section Code (2)",                               21,  22, "004"),
  F("Multiple Code",                                  23,  23, "130"),
  F("Continuation Record No",                         39,  39, "016"),
  F("Application Type",                               40,  40, "091"),
  F("Notes",                                          41, 109, "061"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

HeliportMSA_primary == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Heliport Identifier",                             7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("MSA Center",                                     14,  17, "144"),
  F("ICAO Code (2)",                                  19,  20, "014"),
  F("Section Code (2)",                               21,  22, "004"),
  F("Multiple Code",                                  23,  23, "130"),
  F("Continuation Record No",                         39,  39, "016"),
  F("Sector Bearing",                                 43,  48, "146"),
  F("Sector Altitude",                                49,  51, "147"),
  F("Sector Radius",                                  52,  53, "145"),
  F("Sector Bearing (2)",                             54,  59, "146"),
  F("Sector Altitude (2)",                            60,  62, "147"),
  F("Sector Radius (2)",                              63,  64, "145"),
  F("Sector Bearing (3)",                             65,  70, "146"),
  F("Sector Altitude (3)",                            71,  73, "147"),
  F("Sector Radius (3)",                              74,  75, "145"),
  F("Sector Bearing (4)",                             76,  81, "146"),
  F("Sector Altitude (4)",                            82,  84, "147"),
  F("Sector Radius (4)",                              85,  86, "145"),
  F("Sector Bearing (5)",                             87,  92, "146"),
  F("Sector Altitude (5)",                            93,  95, "147"),
  F("Sector Radius (5)",                              96,  97, "145"),
  F("Sector Bearing (6)",                             98, 103, "146"),
  F("Sector Altitude (6)",                           104, 106, "147"),
  F("Sector Radius (6)",                             107, 108, "145"),
  F("Sector Bearing (7)",                            109, 114, "146"),
  F("Sector Altitude (7)",                           115, 117, "147"),
  F("Sector Radius (7)",                             118, 119, "145"),
  F("Magnetic/True Bearing",                         120, 120, "165"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

HeliportCommunications_cont == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Heliport Identifier",                             7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("Communications Type",                            14,  16, "101"),
  F("Communications Freq",                            17,  23, "103"),
  F("Guard/Transmit",                                 24,  24, "182"),
  F("Frequency Units",                                25,  25, "104"),
  F("Continuation Record No",                         26,  26, "016"),
  F("Application Type",                               27,  27, "091"),
  F("Narrative",                                      28,  87, "186"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

HeliportCommunications_timeop == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Heliport Identifier",                             7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("Communications Type",                            14,  16, "101"),
  F("Communications Freq",                            17,  23, "103"),
  F("Guard/Transmit",                                 24,  24, "182"),
  F("Frequency Units",                                25,  25, "104"),
  F("Continuation Record No",                         26,  26, "016"),
  F("Application Type",                               27,  27, "091"),
  F("Time Code",                                      28,  28, "131"),
  F("NOTAM",                                          29,  29, "132"),
  F("Time Indicator",                                 30,  30, "138"),
  F("Time of Operation",                              31,  40, "195"),
  F("Time of Operation (2)",                          41,  50, "195"),
  F("Time of Operation (3)",                          51,  60, "195"),
  F("Time of Operation (4)",                          61,  70, "195"),
  F("Time of Operation (5)",                          71,  80, "195"),
  F("Time of Operation (6)",                          81,  90, "195"),
  F("Time of Operation (7)",                          91, 100, "195"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

HeliportCommunications_primary == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Heliport Identifier",                             7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("Communications Type",                            14,  16, "101"),
  F("Communications Freq",                            17,  23, "103"),
  F("Guard/Transmit",                                 24,  24, "182"),
  F("Frequency Units",                                25,  25, "104"),
  F("Continuation Record No",                         26,  26, "016"),
  F("Service Indicator",                              27,  29, "106"),
  F("Radar Service",                                  30,  30, "102"),
  F("Modulation",                                     31,  31, "198"),
  F("Signal Emission",                                32,  32, "199"),
  F("Latitude",                                       33,  41, "036"),
  F("Longitude",                                      42,  51, "036"),
  F("Magnetic Variation",                             52,  56, "039"),
  F("Facility Elevation",                             57,  61, "092"),
  F("H24 Indicator",                                  62,  62, "181"),
  F("Sectorization",                                  63,  68, "183"),
  F("Altitude Description",                           69,  69, "029"),
  F("Communication Altitude",                         70,  74, "184"),
  F("Communication Altitude (2)",                     75,  79, "184"),
  F("Sector Facility",                                80,  83, "185"),
  F("ICAO Code (2)",                                  84,  85, "014"),
  F("Section Code (2)",                               86,  87, "004"),
  F("Distance Description",                           88,  88, "187"),
  F("Communications Distance",                        89,  90, "188"),
  F("Remote Facility",                                91,  94, "200"),
  F("ICAO Code (3)",                                  95,  96, "014"),
  F("Section Code (3)",                               97,  98, "004"),
  F("Call Sign",                                      99, 123, "105"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

Airport_cont == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Airport ICAO Identifier",                         7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("ATA/IATA Designator",                            14,  16, "107"),
  F("Continuation Record No",                         22,  22, "016"),
  F("Application Type",                               23,  23, "091"),
  F("Notes",                                          24,  92, "061"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

Airport_flight0 == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Heliport Identifier",                             7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("ATA/IATA Designator",                            14,  16, "107"),
  F("Continuation Record No",                         22,  22, "016"),
  F("Application Type",                               23,  23, "091"),
  F("FIR Identifier",                                 24,  27, "116"),
  F("UIR Identifier",                                 28,  31, "116"),
  F("Start/End Indicator",                            32,  32, "152"),
  F("Start/End Date/Time",                            33,  43, "153"),
  F("Controlled A/S Indicator",                       67,  67, "217"),
  F("Controlled A/S Airport Ident",                   68,  71, "006"),
  F("Controlled A/S Airport ICAO",                    72,  73, "014"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

Airport_flight1 == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Airport ICAO Identifier",                         7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("ATA/IATA Designator",                            14,  16, "107"),
  F("Continuation Record No",                         22,  22, "016"),
  F("Speed Limit Altitude",                           23,  27, "073"),
  F("Longest Runway",                                 28,  30, "054"),
  F("IFR Capability",                                 31,  31, "108"),
  F("Longest Runway Surface Code",                    32,  32, "249"),
  F("Airport Reference Pt. Latitude",                 33,  41, "036"),
  F("Airport Reference Pt. Longitude",                42,  51, "037"),
  F("Magnetic Variation",                             52,  56, "039"),
  F("Airport Elevation",                              57,  61, "055"),
  F("Speed Limit",                                    62,  64, "072"),
  F("Recommended Navaid",                             65,  68, "023"),
  F("ICAO Code (2)",                                  69,  70, "014"),
  F("Transition Altitude",                            71,  75, "053"),
  F("Transition Level",                               76,  80, "053"),
  F("Public Military Indicator",                      81,  81, "177"),
  F("Time Zone",                                      82,  84, "178"),
  F("Daylight Indicator",                             85,  85, "179"),
  F("Magnetic/True Indicator",                        86,  86, "165"),
  F("Datum Code",                                     87,  89, "197"),
  F("Airport Name",                                   94, 123, "071"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

Airport_primary == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Airport ICAO Identifier",                         7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("ATA/IATA Designator",                            14,  16, "107"),
  F("Continuation Record No",                         22,  22, "016"),
  F("Speed Limit Altitude",                           23,  27, "073"),
  F("Longest Runway",                                 28,  30, "054"),
  F("IFR Capability",                                 31,  31, "108"),
  F("Longest Runway Surface Code",                    32,  32, "249"),
  F("Airport Reference Pt. Latitude",                 33,  41, "036"),
  F("Airport Reference Pt. Longitude",                42,  51, "037"),
  F("Magnetic Variation",                             52,  56, "039"),
  F("Airport Elevation",                              57,  61, "055"),
  F("Speed Limit",                                    62,  64, "072"),
  F("Recommended Navaid",                             65,  68, "023"),
  F("ICAO Code (2)",                                  69,  70, "014"),
  F("Transition Altitude",                            71,  75, "053"),
  F("Transition Level",                               76,  80, "053"),
  F("Public Military Indicator",                      81,  81, "177"),
  F("Time Zone",                                      82,  84, "178"),
  F("Daylight Indicator",                             85,  85, "179"),
  F("Magnetic/True Indicator",                        86,  86, "165"),
  F("Datum Code",                                     87,  89, "197"),
  F("Airport Name",                                   94, 123, "071"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

AirportGate_cont == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Airport ICAO Identifier",                         7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("Gate Identifier",                                14,  18, "056"),
  F("Continuation Record No",                         22,  22, "016"),
  F("Application Notes",                              23,  23, "091"),
  F("Notes",                                          24,  92, "061"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

AirportGate_primary == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Airport ICAO Identifier",                         7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("Gate Identifier",                                14,  18, "056"),
  F("Continuation Record No",                         22,  22, "016"),
  F("Gate Latitude",                                  33,  41, "036"),
  F("Gate Longitude",                                 42,  51, "037"),
  F("Name",                                           99, 123, "060"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

TerminalWaypoint_cont == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Region Code",                                     7,  10, "041"),
  F("ICAO Code",                                      11,  12, "014"),
  F("Waypoint Identifier",                            14,  18, "013"),
  F("ICAO Code (2)",                                  20,  21, "014"),
  F("Continuation Record No",                         22,  22, "016"),
  F("Application Type",                               23,  23, "091"),
  F("Notes",                                          24, 123, "061"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

TerminalWaypoint_flight_plan0 == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Region Code",                                     7,  10, "041"),
  F("ICAO Code",                                      11,  12, "014"),
  F("Waypoint Identifier",                            14,  18, "013"),
  F("ICAO Code (2)",                                  20,  21, "014"),
  F("Continuation Record No",                         22,  22, "016"),
  F("Application Type",                               23,  23, "091"),
  F("FIR Identifier",                                 24,  27, "116"),
  F("UIR Identifier",                                 28,  31, "116"),
  F("Start/End Indicator",                            32,  32, "152"),
  F("Start/End Date",                                 33,  43, "153"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

TerminalWaypoint_flight_plan1 == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Region Code",                                     7,  10, "041"),
  F("ICAO Code",                                      11,  12, "014"),
  F("Waypoint Identifier",                            14,  18, "013"),
  F("ICAO Code (2)",                                  20,  21, "014"),
  F("Continuation Record No",                         22,  22, "016"),
  F("Waypoint Type",                                  27,  29, "042"),
  F("Waypoint Usage",                                 30,  31, "082"),
  F("Waypoint Latitude",                              33,  41, "036"),
  F("Waypoint Longitude",                             42,  51, "037"),
  F("Dynamic Mag. Variation",                         75,  79, "039"),
  F("Datum Code",                                     85,  87, "197"),
  F("Name Format Indicator",                          96,  98, "196"),
  F("Waypoint Name / Desc",                           99, 123, "043"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

TerminalWaypoint_primary == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Region Code",                                     7,  10, "041"),
  F("ICAO Code",                                      11,  12, "014"),
  F("Waypoint Identifier",                            14,  18, "013"),
  F("ICAO Code (2)",                                  20,  21, "014"),
  F("Continuation Record No",                         22,  22, "016"),
  F("Waypoint Type",                                  27,  29, "042"),
  F("Waypoint Usage",                                 30,  31, "082"),
  F("Waypoint Latitude",                              33,  41, "036"),
  F("Waypoint Longitude",                             42,  51, "037"),
  F("Dynamic Mag. Variation",                         75,  79, "039"),
  F("Datum Code",                                     85,  87, "197"),
  F("Name Format Indicator",                          96,  98, "196"),
  F("Waypoint Name / Desc",                           99, 123, "043"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

Runway_cont == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Airport ICAO Identifier",                         7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("Runway Identifier",                              14,  18, "046"),
  F("Continuation Record No",                         22,  22, "016"),
  F("Notes",                                          24,  92, "061"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

Runway_sim == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Airport ICAO Identifier",                         7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("Runway Identifier",                              14,  18, "046"),
  F("Continuation Record No",                         22,  22, "016"),
  F("Application Type",                               23,  23, "091"),
  F("Runway True Bearing",                            52,  56, "094"),
  F("True Bearing Source",                            57,  57, "095"),
  F("TDZE Location",                                  66,  66, "098"),
  F("Touchdown Zone Elevation",                       67,  71, "097"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

Runway_primary == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Airport ICAO Identifier",                         7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("Runway Identifier",                              14,  18, "046"),
  F("Continuation Record No",                         22,  22, "016"),
  F("Runway Length",                                  23,  27, "057"),
  F("Runway Magnetic Bearing",                        28,  31, "058"),
  F("Runway Latitude",                                33,  41, "036"),
  F("Runway Longitude",                               42,  51, "037"),
  F("Runway Gradient",                                52,  56, "212"),
  F("(LTP) Ellipsoid Height",                         61,  66, "225"),
  F("Landing Threshold Elevation",                    67,  71, "068"),
  F("Displaced Threshold Dist",                       72,  75, "069"),
  F("Threshold Crossing Height",                      76,  77, "067"),
  F("Runway Width",                                   78,  80, "109"),
  F("TCH Value Indicator",                            81,  81, "270"),
  F("Localizer/MLS/GLS Ref Path Ident",               82,  85, "044"),
  F("Localizer/MLS/GLS Category/Class",               86,  86, "080"),
  F("Stopway",                                        87,  90, "079"),
  F("Localizer/MLS/GLS Ref Path Ident (2)",           91,  94, "044"),
  F("Localizer/MLS/GLS Category/Class (2)",           95,  95, "080"),
  F("Runway Description",                            102, 123, "059"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

LocalizerGlideslope_cont == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Airport Identifier",                              7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("Localizer Identifier",                           14,  17, "044"),
  F("ILS Category",                                   18,  18, "080"),
  F("Continuation Record No",                         22,  22, "016"),
  F("Notes",                                          24,  92, "061"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

LocalizerGlideslope_sim == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Airport Identifier",                              7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("Localizer Identifier",                           14,  17, "044"),
  F("ILS Category",                                   18,  18, "080"),
  F("Continuation Record No",                         22,  22, "016"),
  F("Application Type",                               23,  23, "091"),
  F("Facility Characteristics",                       28,  32, "093"),
  F("Localizer True Bearing",                         52,  56, "094"),
  F("Localizer Bearing Source",                       57,  57, "095"),
  F("Glide Slope Beam Width",                         88,  90, "096"),
  F("Approach Route Ident",                           91,  96, "010"),
  F("Approach Route Ident (2)",                       97, 102, "010"),
  F("Approach Route Ident (3)",                      103, 108, "010"),
  F("Approach Route Ident (4)",                      109, 114, "010"),
  F("Approach Route Ident (5)",                      115, 120, "010"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

LocalizerGlideslope_primary == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Airport Identifier",                              7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("Localizer Identifier",                           14,  17, "044"),
  F("ILS Category",                                   18,  18, "080"),
  F("Continuation Record No",                         22,  22, "016"),
  F("Localizer Frequency",                            23,  27, "045"),
  F("Runway Identifier",                              28,  32, "046"),
  F("Localizer Latitude",                             33,  41, "036"),
  F("Localizer Longitude",                            42,  51, "037"),
  F("Localizer Bearing",                              52,  55, "047"),
  F("Glide Slope Latitude",                           56,  64, "036"),
  F("Glide Slope Longitude",                          65,  74, "037"),
  F("Localizer Position",                             75,  78, "048"),
  F("Localizer Position Reference",                   79,  79, "049"),
  F("Glide Slope Position",                           80,  83, "050"),
  F("Localizer Width",                                84,  87, "051"),
  F("Glide Slope Angle",                              88,  90, "052"),
  F("Station Declination",                            91,  95, "066"),
  F("Glide Slope Height at Landing Threshold",        96,  97, "067"),
  F("Glide Slope Elevation",                          98, 102, "074"),
  F("Supporting Facility ID Note 1",                 103, 106, "033"),
  F("Supporting Facility ICAO Code Note 1",          107, 108, "014"),
  F("Supporting Facility Section Code Note 1",       109, 110, "004"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

AirportTAA_cont == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Airport Identifier",                              7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("Approach Identifier",                            14,  19, "010"),
  F("TAA Sector Identifier",                          20,  20, "272"),
  F("TAA Procedure Turn",                             21,  24, "271"),
  F("TAA IAF Waypoint",                               30,  34, "273"),
  F("ICAO Code (2)",                                  11,  12, "014"),
  F("Section Code (2)",                               37,  38, "004"),
  F("Continuation Record No",                         39,  39, "016"),
  F("Application Notes",                              40,  40, "091"),
  F("Notes",                                          51, 109, "061"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

AirportTAA_primary == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Airport Identifier",                              7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("Approach Identifier",                            14,  19, "010"),
  F("TAA Waypoint",                                   20,  24, "273"),
  F("TAA Procedure Turn",                             21,  24, "271"),
  F("ICAO Code (2)",                                  25,  26, "014"),
  F("Section Code (2)",                               27,  28, "004"),
  F("TAA Fix Position Indicator",                     29,  29, "272"),
  F("Continuation Record No",                         30,  30, "016"),
  F("Mag/True Indicator",                             41,  41, "165"),
  F("Sector Radius",                                  42,  45, "274"),
  F("Sector Bearing",                                 46,  51, "146"),
  F("Sector Minimum Altitude",                        52,  54, "147"),
  F("Sector Radius (2)",                              55,  58, "274"),
  F("Sector Bearing (2)",                             59,  64, "146"),
  F("Sector Minimum Altitude (2)",                    65,  67, "147"),
  F("Sector Radius (3)",                              68,  71, "274"),
  F("Sector Bearing (3)",                             72,  77, "146"),
  F("Sector Minimum Altitude (3)",                    78,  80, "147"),
  F("Sector Radius (4)",                              81,  84, "274"),
  F("Sector Bearing (4)",                             85,  90, "146"),
  F("Sector Minimum Altitude (4)",                    91,  93, "147"),
  F("Sector Radius (5)",                              94,  97, "274"),
  F("Sector Bearing (5)",                             98, 103, "146"),
  F("Sector Minimum Altitude (5)",                   104, 106, "147"),
  F("Sector Radius (6)",                             107, 110, "274"),
  F("Sector Bearing (6)",                            111, 116, "146"),
  F("Sector Minimum Altitude (6)",                   117, 119, "147"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

MLS_cont == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Airport Identifier",                              7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("MLS Identifier",                                 14,  17, "044"),
  F("MLS Category",                                   18,  18, "080"),
  F("Continuation Record No",                         22,  22, "016"),
  F("Application Type",                               23,  23, "091"),
  F("Facility Characteristics",                       28,  32, "093"),
  F("Back Azimuth Latitude",                          33,  41, "036"),
  F("Back Azimuth Longitude",                         42,  51, "037"),
  F("Back Azimuth Bearing",                           52,  55, "167"),
  F("MLS Datum Point Latitude",                       56,  64, "036"),
  F("MLS Datum Point Longitude",                      65,  74, "037"),
  F("Back Azimuth Position",                          75,  78, "048"),
  F("Back Azimuth Position Reference",                79,  79, "049"),
  F("Back Azimuth Proportional Angle Right",          84,  86, "168"),
  F("Back Azimuth Proportional Angle Left",           87,  89, "168"),
  F("Back Azimuth Coverage Right",                    90,  92, "172"),
  F("Back Azimuth Coverage Left",                     93,  95, "172"),
  F("Back Azimuth True Bearing",                      96, 100, "094"),
  F("Back Azimuth Bearing Source",                   101, 101, "095"),
  F("Azimuth True Bearing",                          102, 106, "094"),
  F("Azimuth Bearing Source",                        107, 107, "095"),
  F("Glide Path Height at Landing Threshold",        108, 109, "067"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

MLS_primary == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Airport Identifier",                              7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("MLS Identifier",                                 14,  17, "044"),
  F("MLS Category",                                   18,  18, "080"),
  F("Continuation Record No",                         22,  22, "016"),
  F("Channel",                                        23,  25, "166"),
  F("Runway Identifier",                              28,  32, "046"),
  F("Azimuth Latitude",                               33,  41, "036"),
  F("Azimuth Longitude",                              42,  51, "037"),
  F("Azimuth Bearing",                                52,  55, "167"),
  F("Elevation Latitude",                             56,  64, "036"),
  F("Elevation Longitude",                            65,  74, "037"),
  F("Azimuth Position",                               75,  78, "048"),
  F("Azimuth Position Reference",                     79,  79, "049"),
  F("Elevation Position",                             80,  83, "050"),
  F("Azimuth Proportional Angle Right",               84,  86, "168"),
  F("Azimuth Proportional Angle Left",                87,  89, "168"),
  F("Azimuth Coverage Right",                         90,  92, "172"),
  F("Azimuth Coverage Left",                          93,  95, "172"),
  F("Elevation Angle Span",                           96,  98, "169"),
  F("Magnetic Variation",                             99, 103, "039"),
  F("EL Elevation",                                  104, 108, "074"),
  F("Nominal Elevation Angle",                       109, 112, "173"),
  F("Minimum Glide Path Angle",                      113, 115, "052"),
  F("Supporting Facility Identifier",                116, 119, "033"),
  F("Supporting Facility ICAO Code",                 120, 121, "014"),
  F("Supporting Facility Section",                   122, 123, "004"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

LocalizerMarker_cont == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Airport Identifier",                              7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("Localizer Identifier",                           14,  17, "044"),
  F("Marker Type",                                    18,  20, "099"),
  F("Continuation Record No",                         22,  22, "016"),
  F("Application Type",                               23,  23, "091"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

LocalizerMarker_primary == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Airport Identifier",                              7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("Localizer Identifier",                           14,  17, "044"),
  F("Marker Type",                                    18,  20, "099"),
  F("Continuation Record No",                         22,  22, "016"),
  F("Locator Frequency",                              23,  27, "034"),
  F("Runway Identifier",                              28,  32, "046"),
  F("Marker Latitude",                                33,  41, "036"),
  F("Marker Longitude",                               42,  51, "037"),
  F("Minor Axis Bearing",                             52,  55, "100"),
  F("Locator Latitude",                               56,  64, "036"),
  F("Locator Longitude",                              65,  74, "037"),
  F("Localizer Class",                                75,  79, "035"),
  F("Localizer Facility Characteristics",             80,  83, "093"),
  F("Localizer Identifier (2)",                       85,  88, "033"),
  F("Magnetic Variation",                             91,  95, "039"),
  F("Facility Elevation",                             98, 102, "092"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

PathPoint_cont == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Airport Identifier",                              7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("Approach Procedure Ident",                       14,  19, "010"),
  F("Runway or Helipad Ident",                        20,  24, "046"),
  F("Operation Type",                                 25,  26, "223"),
  F("Continuation Record No",                         27,  27, "016"),
  F("Application Type",                               28,  28, "091"),
  F("(FPAP) Ellipsoid Height",                        29,  34, "225"),
  F("(FPAP) Orthometric Height",                      35,  40, "227"),
  F("(LTP) Orthometric Height",                       41,  46, "227"),
  F("Approach Type Identifier",                       47,  56, "262"),
  F("GNSS Channel Number",                            57,  61, "244"),
  F("Helicopter Procedure Course",                    72,  74, "269"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

PathPoint_primary == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Airport Identifier",                              7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("Approach Procedure Ident",                       14,  19, "010"),
  F("Runway or Helipad Ident",                        20,  24, "046"),
  F("Operation Type",                                 25,  26, "223"),
  F("Continuation Record No",                         27,  27, "016"),
  F("Route Identifier",                               28,  28, "224"),
  F("SBAS Service Provider Ident",                    29,  30, "255"),
  F("Reference Path Data Selector",                   31,  32, "256"),
  F("Reference Path Identifier",                      33,  36, "257"),
  F("Approach Performance Designator",                37,  37, "258"),
  F("Landing Threshold Point Latitude",               38,  48, "267"),
  F("Landing Threshold Point Longitude",              49,  60, "268"),
  F("(LTP) Ellipsoid Height",                         61,  66, "225"),
  F("Glide Path Angle",                               67,  70, "226"),
  F("Flight Path Alignment Point Latitude",           71,  81, "267"),
  F("Flight Path Alignment Point Longitude",          82,  93, "268"),
  F("Course Width at Threshold Note 4",               94,  98, "228"),
  F("Length Offset",                                  99, 102, "259"),
  F("Path Point TCH",                                103, 108, "265"),
  F("TCH Units Indicator",                           109, 109, "266"),
  F("HAL",                                           110, 112, "263"),
  F("VAL",                                           113, 115, "264"),
  F("SBAS FAS Data CRC Remainder",                   116, 123, "229"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

FlightPlanning_cont == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Airport Identifier",                              7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("SID/STAR/Approach Identifier",                   14,  19, "009"),
  F("Procedure Type",                                 20,  20, "230"),
  F("Runway Transition Identifier",                   21,  25, "011"),
  F("Runway Transition Fix",                          26,  30, "013"),
  F("ICAO Code (2)",                                  31,  32, "014"),
  F("Section Code (2)",                               33,  34, "004"),
  F("Runway Transition Along Track Dist",             35,  37, "231"),
  F("Common Segment Transition Fix",                  38,  42, "013"),
  F("ICAO Code (3)",                                  43,  44, "014"),
  F("Section Code (3)",                               45,  46, "004"),
  F("Common Segment Along Track Dist",                47,  49, "231"),
  F("Enroute Transition Identifier",                  50,  54, "011"),
  F("Enroute Transition Fix",                         55,  59, "013"),
  F("ICAO Code (4)",                                  60,  61, "014"),
  F("Section Code (4)",                               62,  63, "004"),
  F("Enroute Transition Along Track Dist",            64,  66, "231"),
  F("Sequence Number",                                67,  69, "012"),
  F("Continuation Number",                            70,  70, "016"),
  F("Application Type",                               71,  71, "091"),
  F("Intermediate Fix Identifier",                    72,  76, "013"),
  F("ICAO Code (5)",                                  77,  78, "014"),
  F("Section Code (5)",                               79,  80, "004"),
  F("Intermediate Distance",                          81,  83, "231"),
  F("Fix Related Transition Code",                    84,  84, "241"),
  F("Intermediate Fix Identifier (2)",                85,  89, "013"),
  F("ICAO Code (6)",                                  90,  91, "014"),
  F("Section Code (6)",                               92,  93, "004"),
  F("Intermediate Distance (2)",                      94,  96, "231"),
  F("Fix Related Transition Code (2)",                97,  97, "241"),
  F("Intermediate Fix Identifier (3)",                98, 102, "013"),
  F("ICAO Code (7)",                                 103, 104, "014"),
  F("Section Code (7)",                              105, 106, "004"),
  F("Intermediate Distance (3)",                     107, 109, "231"),
  F("Fix Related Transition Code (3)",               110, 110, "241"),
  F("Intermediate Fix Identifier (4)",               111, 115, "013"),
  F("ICAO Code (8)",                                 116, 117, "014"),
  F("Section Code (8)",                              118, 119, "004"),
  F("Intermediate Distance (4)",                     120, 122, "231"),
  F("Fix Related Transition Code (4)",               123, 123, "241"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

FlightPlanning_timeop == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Airport Identifier",                              7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("SID/STAR/Approach Identifier",                   14,  19, "009"),
  F("Procedure Type",                                 20,  20, "230"),
  F("Runway Transition Identifier",                   21,  25, "011"),
  F("Runway Transition Fix",                          26,  30, "013"),
  F("ICAO Code (2)",                                  31,  32, "014"),
  F("Section Code (2)",                               33,  34, "004"),
  F("Runway Transition Along Track Dist",             35,  37, "231"),
  F("Common Segment Transition Fix",                  38,  42, "013"),
  F("ICAO Code (3)",                                  43,  44, "014"),
  F("Section Code (3)",                               45,  46, "004"),
  F("Common Segment Along Track Dist",                47,  49, "231"),
  F("Enroute Transition Identifier",                  50,  54, "011"),
  F("Enroute Transition Fix",                         55,  59, "013"),
  F("ICAO Code (4)",                                  60,  61, "014"),
  F("Section Code (4)",                               62,  63, "004"),
  F("Enroute Transition Along Track Dist",            64,  66, "231"),
  F("Sequence Number",                                67,  69, "012"),
  F("Continuation Number",                            70,  70, "016"),
  F("Application Type",                               71,  71, "091"),
  F("Time Code",                                      72,  72, "131"),
  F("Time Indicator",                                 73,  73, "138"),
  F("Time of Operation",                              74,  83, "195"),
  F("Time of Operation (1)",                          84,  93, "195"),
  F("Time of Operation (2)",                          94, 103, "195"),
  F("Time of Operation (3)",                         104, 113, "195"),
  F("Time of Operation (4)",                         114, 123, "195"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

FlightPlanning_primary == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Airport Identifier",                              7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("SID/STAR/Approach Identifier",                   14,  19, "009"),
  F("Procedure Type",                                 20,  20, "230"),
  F("Runway Transition Identifier",                   21,  25, "011"),
  F("Runway Transition Fix",                          26,  30, "013"),
  F("ICAO Code (2)",                                  31,  32, "014"),
  F("Section Code (2)",                               33,  34, "004"),
  F("Runway Transition Along Track Dist",             35,  37, "231"),
  F("Common Segment Transition Fix",                  38,  42, "013"),
  F("ICAO Code (3)",                                  43,  44, "014"),
  F("Section Code (3)",                               45,  46, "004"),
  F("Common Segment Along Track Dist",                47,  49, "231"),
  F("Enroute Transition Identifier",                  50,  54, "011"),
  F("Enroute Transition Fix",                         55,  59, "013"),
  F("ICAO Code (4)",                                  60,  61, "014"),
  F("Section Code (4)",                               62,  63, "004"),
  F("Enroute Transition Along Track Dist",            64,  66, "231"),
  F("Sequence Number",                                67,  69, "012"),
  F("Continuation Number",                            70,  70, "016"),
  F("Number of Engines",                              71,  74, "232"),
  F("Turboprop/Jet Indicator",                        75,  75, "233"),
  F("RNAV Flag",                                      76,  76, "234"),
  F("ATC Weight Category",                            77,  77, "235"),
  F("ATC Identifier",                                 78,  84, "236"),
  F("Time Code",                                      85,  85, "131"),
  F("Procedure Description",                          86, 100, "237"),
  F("Leg Type Code",                                 101, 102, "238"),
  F("Reporting Code",                                103, 103, "239"),
  F("Initial Departure Magnetic Course",             104, 107, "026"),
  F("Altitude Description",                          108, 108, "029"),
  F("Altitude",                                      109, 111, "240"),
  F("Altitude (2)",                                  112, 114, "240"),
  F("Speed Limit",                                   115, 117, "072"),
  F("Initial Cruise Table",                          118, 119, "134"),
  F("Speed Limit Description",                       120, 120, "261"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

AirportMSA_cont == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Airport Identifier",                              7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("MSA Center",                                     14,  17, "144"),
  F("ICAO Code (2)",                                  19,  20, "014"),
  F("Section Code (2)",                               21,  22, "004"),
  F("Multiple Code",                                  23,  23, "130"),
  F("Continuation Record No",                         39,  39, "016"),
  F("Application Type",                               40,  40, "091"),
  F("Notes",                                          41, 109, "061"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

AirportMSA_primary == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Airport Identifier",                              7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("MSA Center",                                     14,  17, "144"),
  F("ICAO Code (2)",                                  19,  20, "014"),
  F("Section Code (2)",                               21,  22, "004"),
  F("Multiple Code",                                  23,  23, "130"),
  F("Continuation Record No",                         39,  39, "016"),
  F("Sector Bearing",                                 43,  48, "146"),
  F("Sector Altitude",                                49,  51, "147"),
  F("Sector Radius",                                  52,  53, "145"),
  F("Sector Bearing (2)",                             54,  59, "146"),
  F("Sector Altitude (2)",                            60,  62, "147"),
  F("Sector Radius (2)",                              63,  64, "145"),
  F("Sector Bearing (3)",                             65,  70, "146"),
  F("Sector Altitude (3)",                            71,  73, "147"),
  F("Sector Radius (3)",                              74,  75, "145"),
  F("Sector Bearing (4)",                             76,  81, "146"),
  F("Sector Altitude (4)",                            82,  84, "147"),
  F("Sector Radius (4)",                              85,  86, "145"),
  F("Sector Bearing (5)",                             87,  92, "146"),
  F("Sector Altitude (5)",                            93,  95, "147"),
  F("Sector Radius (5)",                              96,  97, "145"),
  F("Sector Bearing (6)",                             98, 103, "146"),
  F("Sector Altitude (6)",                           104, 106, "147"),
  F("Sector Radius (6)",                             107, 108, "145"),
  F("Sector Bearing (7)",                            109, 114, "146"),
  F("Sector Altitude (7)",                           115, 117, "147"),
  F("Sector Radius (7)",                             118, 119, "145"),
  F("Magnetic/True Bearing",                         120, 120, "165"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

GLS_cont == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Airport and Heliport Identifier",                 7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("GLS Ref Path Identifier",                        14,  17, "044"),
  F("GLS Category",                                   18,  18, "080"),
  F("Continuation Record No",                         22,  22, "016"),
  F("Application Type",                               23,  23, "091"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

GLS_primary == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Airport and Heliport Identifier",                 7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("GLS Ref Path Identifier",                        14,  17, "044"),
  F("GLS Category",                                   18,  18, "080"),
  F("Continuation Record No",                         22,  22, "016"),
  F("GLS Channel",                                    23,  27, "244"),
  F("Runway Identifier",                              28,  32, "046"),
  F("GLS Approach Bearing",                           52,  55, "047"),
  F("Station Latitude",                               56,  64, "036"),
  F("Station Longitude",                              65,  74, "037"),
  F("GLS Station Ident",                              75,  78, "243"),
  F("Service Volume Radius",                          84,  85, "245"),
  F("TDMA Slots",                                     86,  87, "246"),
  F("GLS Approach Slope",                             88,  90, "052"),
  F("Magnetic Variation",                             91,  95, "039"),
  F("Station Elevation",                              98, 102, "074"),
  F("Datum Code",                                    103, 105, "197"),
  F("Station Type",                                  106, 108, "247"),
  F("Station Elevation WGS",                         111, 115, "248"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

AirportCommunication_cont_narr == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Airport Identifier",                              7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("Communications Type",                            14,  16, "101"),
  F("Communications Freq",                            17,  23, "103"),
  F("Guard/Transmit",                                 24,  24, "182"),
  F("Frequency Units",                                25,  25, "104"),
  F("Continuation Record No",                         26,  26, "016"),
  F("Application Type",                               27,  27, "091"),
  F("Narrative",                                      28,  87, "186"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

AirportCommunication_primary == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  G("Section Code",                                    5,  13, "004"),
  F("Airport Identifier",                              7,  10, "006"),
  F("ICAO Code",                                      11,  12, "014"),
  F("Communications Type",                            14,  16, "101"),
  F("Communications Freq",                            17,  23, "103"),
  F("Guard/Transmit",                                 24,  24, "182"),
  F("Frequency Units",                                25,  25, "104"),
  F("Continuation Record No",                         26,  26, "016"),
  F("Service Indicator",                              27,  29, "106"),
  F("Radar Service",                                  30,  30, "102"),
  F("Modulation",                                     31,  31, "198"),
  F("Signal Emission",                                32,  32, "199"),
  F("Latitude",                                       33,  41, "036"),
  F("Longitude",                                      42,  51, "037"),
  F("Magnetic Variation",                             52,  56, "039"),
  F("Facility Elevation",                             57,  61, "092"),
  F("H24 Indicator",                                  62,  62, "181"),
  F("Sectorization",                                  63,  68, "183"),
  F("Altitude Description",                           69,  69, "029"),
  F("Communication Altitude",                         70,  74, "184"),
  F("Communication Altitude (2)",                     75,  79, "184"),
  F("Sector Facility",                                80,  83, "185"),
  F("ICAO Code (2)",                                  84,  85, "014"),
  F("Section (2)",                                    86,  87, "004"),
  F("Distance Description",                           88,  88, "187"),
  F("Communications Distance",                        89,  90, "188"),
  F("Remote Facility",                                91,  94, "200"),
  F("ICAO Code (3)",                                  95,  96, "014"),
  F("Section (3)",                                    97,  98, "004"),
  F("Call Sign",                                      99, 123, "105"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

CompanyRoute_primary == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer",                                        2,   4, "003"),
  F("Section Code",                                    5,   6, "004"),
  F("From Airport/Fix",                                7,  11, "075"),
  F("ICAO Code",                                      13,  14, "014"),
  F("Section Code (2)",                               15,  16, "004"),
  F("To Airport/Fix",                                 17,  21, "075"),
  F("ICAO Code (2)",                                  23,  24, "014"),
  F("Section Code (3)",                               25,  26, "004"),
  F("Company Route ID",                               27,  36, "076"),
  F("Sequence Number",                                37,  39, "012"),
  F("VIA",                                            40,  42, "077"),
  F("SID/STAR/App/Awy",                               43,  48, "078"),
  F("Area Code",                                      49,  51, "003"),
  F("To Fix",                                         52,  57, "083"),
  F("ICAO Code (3)",                                  58,  59, "014"),
  F("Section Code (4)",                               60,  61, "004"),
  F("RUnway Trans",                                   62,  66, "084"),
  F("ENRT Trans",                                     67,  71, "085"),
  F("Cruise Altitude",                                73,  77, "086"),
  F("Terminal/Alternate Airport",                     78,  81, "087"),
  F("ICAO Code (4)",                                  82,  83, "014"),
  F("Alternate Distance",                             84,  87, "088"),
  F("Cost Index",                                     88,  90, "089"),
  F("Enroute Alternate Airport",                      91,  94, "148"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

Alternate_primary == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  F("Section Code",                                    5,   6, "004"),
  F("Alternate Related Airport to Fix",                7,  11, "075"),
  F("Alternate Related ICAO Code",                    12,  13, "014"),
  F("Alternate Section",                              14,  15, "004"),
  F("Alternate Record Type",                          16,  17, "250"),
  F("Distance to Alternate",                          20,  22, "251"),
  F("Alternate Type",                                 23,  23, "252"),
  F("Primary Alternate Identifier",                   24,  33, "253"),
  F("Distance to Alternate (2)",                      36,  38, "251"),
  F("Alternate Type (2)",                             39,  39, "252"),
  F("Additional Alternate Identifier One",            40,  49, "253"),
  F("Distance to Alternate (3)",                      52,  54, "251"),
  F("Alternate Type (3)",                             55,  55, "252"),
  F("Additional Alternate Identifier Two",            56,  65, "253"),
  F("Distance to Alternate (4)",                      68,  70, "251"),
  F("Alternate Type (4)",                             71,  71, "252"),
  F("Additional Alternate Identifier (3))",           72,  81, "253"),
  F("Distance to Alternate (5)",                      84,  86, "251"),
  F("Alternate Type (5)",                             87,  87, "252"),
  F("Additional Alternate Identifier (4)",            88,  97, "253"),
  F("Distance to Alternate (6)",                     100, 102, "251"),
  F("Alternate Type (6)",                            103, 103, "252"),
  F("Additional Alternate Identifier (5)",           104, 113, "253"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

CruisingTables_primary == <<
  F("Record Type",                                     1,   1, "002"),
  F("Section Code",                                    5,   6, "004"),
  F("Cruise Table Identifier",                         7,   8, "134"),
  F("Sequence Number",                                 9,   9, "012"),
  F("Course From",                                    29,  32, "135"),
  F("Course To",                                      33,  36, "135"),
  F("Mag/True",                                       37,  37, "165"),
  F("Cruise Level From",                              40,  44, "136"),
  F("Vertical Separation",                            45,  49, "137"),
  F("Cruise Level To",                                50,  54, "136"),
  F("Cruise Level From (2)",                          55,  59, "136"),
  F("Vertical Separation (2)",                        60,  64, "137"),
  F("Cruise Level To (2)",                            65,  69, "136"),
  F("Cruise Level From (3)",                          70,  74, "136"),
  F("Vertical Separation (3)",                        75,  79, "137"),
  F("Cruise Level To (3)",                            80,  84, "136"),
  F("Cruise Level From (4)",                          85,  89, "136"),
  F("Vertical Separation (4)",                        90,  94, "137"),
  F("Cruise Level To (4)",                            95,  99, "136"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

GeoReferenceTable_cont == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  F("Section Code",                                    5,   6, "004"),
  F("Geographical Ref Table ID",                       7,   8, "218"),
  F("Sequence Number",                                 9,   9, "012"),
  F("Geographical Entity",                            10,  38, "219"),
  F("Continuation Record No",                         39,  39, "016"),
  F("Application Type",                               40,  40, "091"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

GeoReferenceTable_primary == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  F("Section Code",                                    5,   6, "004"),
  F("Geographical Ref Table ID",                       7,   8, "218"),
  F("Sequence Number",                                 9,   9, "012"),
  F("Geographical Entity",                            10,  38, "219"),
  F("Continuation Record No",                         39,  39, "016"),
  F("Preferred Route Ident",                          41,  50, "008"),
  F("Preferred Route Use Ind",                        51,  52, "220"),
  F("Preferred Route Ident (2)",                      53,  62, "008"),
  F("Preferred Route Use Ind (2)",                    63,  64, "220"),
  F("Preferred Route Ident (3)",                      65,  74, "008"),
  F("Preferred Route Use Ind (3)",                    75,  76, "220"),
  F("Preferred Route Ident (4)",                      77,  86, "008"),
  F("Preferred Route Use Ind (4)",                    87,  88, "220"),
  F("Preferred Route Ident (5)",                      89,  98, "008"),
  F("Preferred Route Use Ind (5)",                    99, 100, "220"),
  F("Preferred Route Ident (6)",                     101, 110, "008"),
  F("Preferred Route Use Ind (6)",                   111, 112, "220"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

ControlledAirspace_cont == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  F("Section Code",                                    5,   6, "004"),
  F("ICAO Code",                                       7,   8, "014"),
  F("Airspace Type",                                   9,   9, "213"),
  F("Airspace Center",                                10,  14, "214"),
  F("Section Code (2)",                               15,  16, "004"),
  F("Airspace Classification",                        17,  17, "215"),
  F("Multiple Code",                                  20,  20, "130"),
  F("Sequence Number",                                21,  24, "012"),
  F("Continuation Record No",                         25,  25, "016"),
  F("Application Type",                               26,  26, "091"),
  F("Time Code",                                      27,  27, "131"),
  F("NOTAM",                                          28,  28, "132"),
  F("Time Indicator",                                 29,  29, "138"),
  F("Time of Operations",                             30,  39, "195"),
  F("Time of Operations (2)",                         40,  49, "195"),
  F("Time of Operations (3)",                         50,  59, "195"),
  F("Time of Operations (4)",                         60,  69, "195"),
  F("Time of Operations (5)",                         70,  79, "195"),
  F("Time of Operations (6)",                         80,  89, "195"),
  F("Time of Operations (7)",                         90,  99, "195"),
  F("Controlling Agency",                            100, 123, "140"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

ControlledAirspace_primary == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  F("Section Code",                                    5,   6, "004"),
  F("ICAO Code",                                       7,   8, "014"),
  F("Airspace Type",                                   9,   9, "213"),
  F("Airspace Center",                                10,  14, "214"),
  F("Section Code (2)",                               15,  16, "004"),
  F("Airspace Classification",                        17,  17, "215"),
  F("Multiple Code",                                  20,  20, "130"),
  F("Sequence Number",                                21,  24, "012"),
  F("Continuation Record No",                         25,  25, "016"),
  F("Level",                                          26,  26, "019"),
  F("Time Code",                                      27,  27, "131"),
  F("NOTAM",                                          28,  28, "132"),
  F("Boundary Via",                                   31,  32, "118"),
  F("Latitude",                                       33,  41, "036"),
  F("Longitude",                                      42,  51, "037"),
  F("Arc Origin Latitude",                            52,  60, "036"),
  F("Arc Origin Longitude",                           61,  70, "037"),
  F("Arc Distance",                                   71,  74, "119"),
  F("Arc Bearing",                                    75,  78, "120"),
  F("RNP",                                            79,  81, "211"),
  F("Lower Limit",                                    82,  86, "121"),
  F("Unit Indicator",                                 87,  87, "133"),
  F("Upper Limit",                                    88,  92, "121"),
  F("Unit Indicator (2)",                             93,  93, "133"),
  F("Controlled Airspace Name",                       94, 123, "216"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

FIRUIR_cont == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  F("Section Code",                                    5,   6, "004"),
  F("FIR/UIR Identifier",                              7,  10, "116"),
  F("FIR/UIR Address",                                11,  14, "151"),
  F("FIR/UIR Indicator",                              15,  15, "117"),
  F("Sequence Number",                                16,  19, "012"),
  F("Continuation Record No",                         20,  20, "016"),
  F("Application Type",                               21,  21, "091"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

FIRUIR_primary == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  F("Section Code",                                    5,   6, "004"),
  F("FIR/UIR Identifier",                              7,  10, "116"),
  F("FIR/UIR Address",                                11,  14, "151"),
  F("FIR/UIR Indicator",                              15,  15, "117"),
  F("Sequence Number",                                16,  19, "012"),
  F("Continuation Record No",                         20,  20, "016"),
  F("Adjacent FIR Identifier",                        21,  24, "116"),
  F("Adjacent UIR Identifier",                        25,  28, "116"),
  F("Reporting Units Speed",                          29,  29, "122"),
  F("Reporting Units Altitude",                       30,  30, "123"),
  F("Entry Report",                                   31,  31, "124"),
  F("Boundary Via",                                   33,  34, "118"),
  F("FIR/UIR Latitude",                               35,  43, "036"),
  F("FIR/UIR Longitude",                              44,  53, "037"),
  F("Arc Origin Latitude",                            54,  62, "036"),
  F("Arc Origin Longitude",                           63,  72, "037"),
  F("Arc Distance",                                   73,  76, "119"),
  F("Arc Bearing",                                    77,  80, "120"),
  F("FIR Upper Limit",                                81,  85, "121"),
  F("UIR Lower Limit",                                86,  90, "121"),
  F("UIR Upper Limit",                                91,  95, "121"),
  F("Cruise Table Ind",                               96,  97, "134"),
  F("FIR/UIR Name",                                   99, 123, "125"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

RestrictiveAirspace_time == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  F("Section Code",                                    5,   6, "004"),
  F("ICAO Code",                                       7,   8, "014"),
  F("Restrictive Type",                                9,   9, "128"),
  F("Restrictive Airspace Designation",               10,  19, "129"),
  F("Multiple Code",                                  20,  20, "130"),
  F("Sequence Number",                                21,  24, "012"),
  F("Continuation Record No",                         25,  25, "016"),
  F("Application Type",                               26,  26, "091"),
  F("Time Code",                                      27,  27, "131"),
  F("NOTAM",                                          28,  28, "132"),
  F("Time Indicator",                                 29,  29, "138"),
  F("Time of Operations",                             30,  39, "195"),
  F("Time of Operations (2)",                         40,  49, "195"),
  F("Time of Operations (3)",                         50,  59, "195"),
  F("Time of Operations (4)",                         60,  69, "195"),
  F("Time of Operations (5)",                         70,  79, "195"),
  F("Time of Operations (6)",                         80,  89, "195"),
  F("Time of Operations (7)",                         90,  99, "195"),
  F("Controlling Agency",                            100, 123, "140"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

RestrictiveAirspace_flight0 == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  F("Section Code",                                    5,   6, "004"),
  F("ICAO Code",                                       7,   8, "014"),
  F("Restrictive Type",                                9,   9, "128"),
  F("Restrictive Airspace Designation",               10,  19, "129"),
  F("Multiple Code",                                  20,  20, "130"),
  F("Sequence Number",                                21,  24, "012"),
  F("Continuation Record No",                         25,  25, "016"),
  F("Application Type",                               26,  26, "091"),
  F("Start/End Indicator",                            30,  30, "152"),
  F("Start/End Date",                                 31,  41, "153"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

RestrictiveAirspace_callsign == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  F("Section Code",                                    5,   6, "004"),
  F("ICAO Code",                                       7,   8, "014"),
  F("Restrictive Type",                                9,   9, "128"),
  F("Restrictive Airspace Designation",               10,  19, "129"),
  F("Multiple Code",                                  20,  20, "130"),
  F("Sequence Number",                                21,  24, "012"),
  F("Continuation Record No",                         25,  25, "016"),
  F("Application Type",                               26,  26, "091"),
  F("Time Code",                                      27,  27, "131"),
  F("NOTAM",                                          28,  28, "132"),
  F("Time Indicator",                                 29,  29, "138"),
  F("Time of Operations",                             30,  39, "195"),
  F("Time of Operations (2)",                         40,  49, "195"),
  F("Time of Operations (3)",                         50,  59, "195"),
  F("Time of Operations (4)",                         60,  69, "195"),
  F("Time of Operations (5)",                         70,  79, "195"),
  F("Time of Operations (6)",                         80,  89, "195"),
  F("Time of Operations (7)",                         90,  99, "195"),
  F("Controlling Agency",                            100, 123, "140"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>

RestrictiveAirspace_primary == <<
  F("Record Type",                                     1,   1, "002"),
  F("Customer / Area Code",                            2,   4, "003"),
  F("Section Code",                                    5,   6, "004"),
  F("ICAO Code",                                       7,   8, "014"),
  F("Restrictive Type",                                9,   9, "128"),
  F("Restrictive Airspace Designation",               10,  19, "129"),
  F("Multiple Code",                                  20,  20, "130"),
  F("Sequence Number",                                21,  24, "012"),
  F("Continuation Record No",                         25,  25, "016"),
  F("Level",                                          26,  26, "019"),
  F("Time Code",                                      27,  27, "131"),
  F("NOTAM",                                          28,  28, "132"),
  F("Boundary Via",                                   31,  32, "118"),
  F("Latitude",                                       33,  41, "036"),
  F("Longitude",                                      42,  51, "037"),
  F("Arc Origin Latitude",                            52,  60, "036"),
  F("Arc Origin Longitude",                           61,  70, "037"),
  F("Arc Distance",                                   71,  74, "119"),
  F("Arc Bearing",                                    75,  78, "120"),
  F("Lower Limit",                                    82,  86, "121"),
  F("Unit Indicator",                                 87,  87, "133"),
  F("Upper Limit",                                    88,  92, "121"),
  F("Unit Indicator (2)",                             93,  93, "133"),
  F("Restrictive Airspace Name",                      94, 123, "126"),
  F("File Record No",                                124, 128, "031"),
  F("Cycle Date",                                    129, 132, "032") >>


Layouts == [
  GridMORA_primary |-> GridMORA_primary,
  VHFNavaid_cont |-> VHFNavaid_cont,
  VHFNavaid_lim |-> VHFNavaid_lim,
  VHFNavaid_flight_plan0 |-> VHFNavaid_flight_plan0,
  VHFNavaid_sim |-> VHFNavaid_sim,
  VHFNavaid_primary |-> VHFNavaid_primary,
  NDBNavaid_cont |-> NDBNavaid_cont,
  NDBNavaid_flight_plan0 |-> NDBNavaid_flight_plan0,
  NDBNavaid_flight_plan1 |-> NDBNavaid_flight_plan1,
  NDBNavaid_sim |-> NDBNavaid_sim,
  NDBNavaid_primary |-> NDBNavaid_primary,
  EnrouteWaypoint_cont |-> EnrouteWaypoint_cont,
  EnrouteWaypoint_flight_plan0 |-> EnrouteWaypoint_flight_plan0,
  EnrouteWaypoint_flight_plan1 |-> EnrouteWaypoint_flight_plan1,
  EnrouteWaypoint_primary |-> EnrouteWaypoint_primary,
  AirwaysMarker_cont |-> AirwaysMarker_cont,
  AirwaysMarker_primary |-> AirwaysMarker_primary,
  HoldingPattern_cont |-> HoldingPattern_cont,
  HoldingPattern_primary |-> HoldingPattern_primary,
  EnrouteAirways_cont |-> EnrouteAirways_cont,
  EnrouteAirways_flight_plan0 |-> EnrouteAirways_flight_plan0,
  EnrouteAirways_flight_plan1 |-> EnrouteAirways_flight_plan1,
  EnrouteAirways_primary |-> EnrouteAirways_primary,
  PreferredRoute_cont |-> PreferredRoute_cont,
  PreferredRoute_timeop |-> PreferredRoute_timeop,
  PreferredRoute_primary |-> PreferredRoute_primary,
  EnrouteAirwaysRestriction_primary_altitude_exclude |-> EnrouteAirwaysRestriction_primary_altitude_exclude,
  EnrouteAirwaysRestriction_primary_cruise_table |-> EnrouteAirwaysRestriction_primary_cruise_table,
  EnrouteAirwaysRestriction_primary_seasonal_closure |-> EnrouteAirwaysRestriction_primary_seasonal_closure,
  EnrouteAirwaysRestriction_primary_note_restriction |-> EnrouteAirwaysRestriction_primary_note_restriction,
  EnrouteAirwaysRestriction_cont_altitude_exclude |-> EnrouteAirwaysRestriction_cont_altitude_exclude,
  EnrouteAirwaysRestriction_cont_cruise_table |-> EnrouteAirwaysRestriction_cont_cruise_table,
  EnrouteAirwaysRestriction_cont_note_restriction |-> EnrouteAirwaysRestriction_cont_note_restriction,
  EnrouteCommunications_cont |-> EnrouteCommunications_cont,
  EnrouteCommunications_timeop |-> EnrouteCommunications_timeop,
  EnrouteCommunications_primary |-> EnrouteCommunications_primary,
  Heliport_cont |-> Heliport_cont,
  Heliport_flight0 |-> Heliport_flight0,
  Heliport_flight1 |-> Heliport_flight1,
  Heliport_primary |-> Heliport_primary,
  HeliportTerminalWaypoint_cont |-> HeliportTerminalWaypoint_cont,
  HeliportTerminalWaypoint_flight0 |-> HeliportTerminalWaypoint_flight0,
  HeliportTerminalWaypoint_flight1 |-> HeliportTerminalWaypoint_flight1,
  HeliportTerminalWaypoint_primary |-> HeliportTerminalWaypoint_primary,
  SIDSTARApproach_ext |-> SIDSTARApproach_ext,
  SIDSTARApproach_flight0 |-> SIDSTARApproach_flight0,
  SIDSTARApproach_data |-> SIDSTARApproach_data,
  SIDSTARApproach_primary |-> SIDSTARApproach_primary,
  HeliportTAA_cont |-> HeliportTAA_cont,
  HeliportTAA_primary |-> HeliportTAA_primary,
  HeliportMSA_cont |-> HeliportMSA_cont,
  HeliportMSA_primary |-> HeliportMSA_primary,
  HeliportCommunications_cont |-> HeliportCommunications_cont,
  HeliportCommunications_timeop |-> HeliportCommunications_timeop,
  HeliportCommunications_primary |-> HeliportCommunications_primary,
  Airport_cont |-> Airport_cont,
  Airport_flight0 |-> Airport_flight0,
  Airport_flight1 |-> Airport_flight1,
  Airport_primary |-> Airport_primary,
  AirportGate_cont |-> AirportGate_cont,
  AirportGate_primary |-> AirportGate_primary,
  TerminalWaypoint_cont |-> TerminalWaypoint_cont,
  TerminalWaypoint_flight_plan0 |-> TerminalWaypoint_flight_plan0,
  TerminalWaypoint_flight_plan1 |-> TerminalWaypoint_flight_plan1,
  TerminalWaypoint_primary |-> TerminalWaypoint_primary,
  Runway_cont |-> Runway_cont,
  Runway_sim |-> Runway_sim,
  Runway_primary |-> Runway_primary,
  LocalizerGlideslope_cont |-> LocalizerGlideslope_cont,
  LocalizerGlideslope_sim |-> LocalizerGlideslope_sim,
  LocalizerGlideslope_primary |-> LocalizerGlideslope_primary,
  AirportTAA_cont |-> AirportTAA_cont,
  AirportTAA_primary |-> AirportTAA_primary,
  MLS_cont |-> MLS_cont,
  MLS_primary |-> MLS_primary,
  LocalizerMarker_cont |-> LocalizerMarker_cont,
  LocalizerMarker_primary |-> LocalizerMarker_primary,
  PathPoint_cont |-> PathPoint_cont,
  PathPoint_primary |-> PathPoint_primary,
  FlightPlanning_cont |-> FlightPlanning_cont,
  FlightPlanning_timeop |-> FlightPlanning_timeop,
  FlightPlanning_primary |-> FlightPlanning_primary,
  AirportMSA_cont |-> AirportMSA_cont,
  AirportMSA_primary |-> AirportMSA_primary,
  GLS_cont |-> GLS_cont,
  GLS_primary |-> GLS_primary,
  AirportCommunication_cont_narr |-> AirportCommunication_cont_narr,
  AirportCommunication_primary |-> AirportCommunication_primary,
  CompanyRoute_primary |-> CompanyRoute_primary,
  Alternate_primary |-> Alternate_primary,
  CruisingTables_primary |-> CruisingTables_primary,
  GeoReferenceTable_cont |-> GeoReferenceTable_cont,
  GeoReferenceTable_primary |-> GeoReferenceTable_primary,
  ControlledAirspace_cont |-> ControlledAirspace_cont,
  ControlledAirspace_primary |-> ControlledAirspace_primary,
  FIRUIR_cont |-> FIRUIR_cont,
  FIRUIR_primary |-> FIRUIR_primary,
  RestrictiveAirspace_time |-> RestrictiveAirspace_time,
  RestrictiveAirspace_flight0 |-> RestrictiveAirspace_flight0,
  RestrictiveAirspace_callsign |-> RestrictiveAirspace_callsign,
  RestrictiveAirspace_primary |-> RestrictiveAirspace_primary ]

LayoutIds == DOMAIN Layouts

(***************************************************************************)
(* Record types.                                                           *)
(*   cont   column of the continuation record number, 0 if the type has no *)
(*          continuation records                                           *)
(*   psel   columns whose text selects the layout of a primary record      *)
(*   prim   layout of a primary record by selector                         *)
(*   csel   columns whose text selects the layout of a continuation record *)
(*   conts  layout of a continuation record by selector                    *)
(*   other  layout of continuation records with any other selector, or ""  *)
(*          when they are not supported                                    *)
(***************************************************************************)
None == <<1, 0>>
Simple(p)         == [cont |-> 0, psel |-> None, prim |-> ("" :> p), csel |-> None,
                      conts |-> <<>>, other |-> ""]
Kind(n, a, p, cs) == [cont |-> n, psel |-> None, prim |-> ("" :> p), csel |-> <<a, a>>,
                      conts |-> cs, other |-> ""]

Kinds ==
  "AS" :> Simple("GridMORA_primary") @@
  "D " :> Kind(22, 23, "VHFNavaid_primary", ("A" :> "VHFNavaid_cont" @@ "L" :> "VHFNavaid_lim" @@ "P" :> "VHFNavaid_flight_plan0" @@ "S" :> "VHFNavaid_sim")) @@
  "DB" :> Kind(22, 23, "NDBNavaid_primary", ("A" :> "NDBNavaid_cont" @@ "P" :> "NDBNavaid_flight_plan0" @@ "Q" :> "NDBNavaid_flight_plan1" @@ "S" :> "NDBNavaid_sim")) @@
  "EA" :> Kind(22, 23, "EnrouteWaypoint_primary", ("A" :> "EnrouteWaypoint_cont" @@ "P" :> "EnrouteWaypoint_flight_plan0" @@ "Q" :> "EnrouteWaypoint_flight_plan1")) @@
  "EM" :> Kind(22, 23, "AirwaysMarker_primary", ("A" :> "AirwaysMarker_cont")) @@
  "EP" :> Kind(39, 40, "HoldingPattern_primary", ("A" :> "HoldingPattern_cont")) @@
  "ER" :> Kind(39, 40, "EnrouteAirways_primary", ("A" :> "EnrouteAirways_cont" @@ "P" :> "EnrouteAirways_flight_plan0" @@ "Q" :> "EnrouteAirways_flight_plan1")) @@
  "ET" :> Kind(39, 40, "PreferredRoute_primary", ("A" :> "PreferredRoute_cont" @@ "T" :> "PreferredRoute_timeop")) @@
  "EU" :> [cont |-> 18, psel |-> <<16, 17>>, prim |-> ("AE" :> "EnrouteAirwaysRestriction_primary_altitude_exclude" @@ "TC" :> "EnrouteAirwaysRestriction_primary_cruise_table" @@ "SC" :> "EnrouteAirwaysRestriction_primary_seasonal_closure" @@ "NR" :> "EnrouteAirwaysRestriction_primary_note_restriction"),
            csel |-> <<16, 17>>, conts |-> ("AE" :> "EnrouteAirwaysRestriction_cont_altitude_exclude" @@ "TC" :> "EnrouteAirwaysRestriction_cont_cruise_table" @@ "NR" :> "EnrouteAirwaysRestriction_cont_note_restriction"), other |-> ""] @@
  "EV" :> Kind(56, 57, "EnrouteCommunications_primary", (" " :> "EnrouteCommunications_cont" @@ "T" :> "EnrouteCommunications_timeop")) @@
  "HA" :> Kind(22, 23, "Heliport_primary", ("A" :> "Heliport_cont" @@ "P" :> "Heliport_flight0" @@ "Q" :> "Heliport_flight1")) @@
  "HC" :> [Kind(22, 23, "HeliportTerminalWaypoint_primary", ("A" :> "HeliportTerminalWaypoint_cont" @@ "P" :> "HeliportTerminalWaypoint_flight0"))
            EXCEPT !.other = "HeliportTerminalWaypoint_flight1"] @@
  "HD" :> Kind(39, 40, "SIDSTARApproach_primary", ("E" :> "SIDSTARApproach_ext" @@ "P" :> "SIDSTARApproach_flight0" @@ "W" :> "SIDSTARApproach_data")) @@
  "HE" :> Kind(39, 40, "SIDSTARApproach_primary", ("E" :> "SIDSTARApproach_ext" @@ "P" :> "SIDSTARApproach_flight0" @@ "W" :> "SIDSTARApproach_data")) @@
  "HF" :> Kind(39, 40, "SIDSTARApproach_primary", ("E" :> "SIDSTARApproach_ext" @@ "P" :> "SIDSTARApproach_flight0" @@ "W" :> "SIDSTARApproach_data")) @@
  "HK" :> Kind(30, 31, "HeliportTAA_primary", ("A" :> "HeliportTAA_cont")) @@
  "HS" :> Kind(39, 40, "HeliportMSA_primary", ("A" :> "HeliportMSA_cont")) @@
  "HV" :> Kind(26, 27, "HeliportCommunications_primary", ("A" :> "HeliportCommunications_cont" @@ "T" :> "HeliportCommunications_timeop")) @@
  "PA" :> Kind(22, 23, "Airport_primary", ("A" :> "Airport_cont" @@ "P" :> "Airport_flight0" @@ "Q" :> "Airport_flight1")) @@
  "PB" :> Kind(22, 23, "AirportGate_primary", ("A" :> "AirportGate_cont")) @@
  "PC" :> Kind(22, 23, "TerminalWaypoint_primary", ("A" :> "TerminalWaypoint_cont" @@ "P" :> "TerminalWaypoint_flight_plan0" @@ "Q" :> "TerminalWaypoint_flight_plan1")) @@
  "PD" :> Kind(39, 40, "SIDSTARApproach_primary", ("E" :> "SIDSTARApproach_ext" @@ "P" :> "SIDSTARApproach_flight0" @@ "W" :> "SIDSTARApproach_data")) @@
  "PE" :> Kind(39, 40, "SIDSTARApproach_primary", ("E" :> "SIDSTARApproach_ext" @@ "P" :> "SIDSTARApproach_flight0" @@ "W" :> "SIDSTARApproach_data")) @@
  "PF" :> Kind(39, 40, "SIDSTARApproach_primary", ("E" :> "SIDSTARApproach_ext" @@ "P" :> "SIDSTARApproach_flight0" @@ "W" :> "SIDSTARApproach_data")) @@
  "PG" :> Kind(22, 23, "Runway_primary", ("A" :> "Runway_cont" @@ "S" :> "Runway_sim")) @@
  "PI" :> Kind(22, 23, "LocalizerGlideslope_primary", ("A" :> "LocalizerGlideslope_cont" @@ "S" :> "LocalizerGlideslope_sim")) @@
  "PK" :> Kind(30, 31, "AirportTAA_primary", ("A" :> "AirportTAA_cont")) @@
  "PL" :> Kind(22, 23, "MLS_primary", ("A" :> "MLS_cont")) @@
  "PM" :> Kind(22, 23, "LocalizerMarker_primary", ("A" :> "LocalizerMarker_cont")) @@
  "PN" :> Kind(22, 23, "NDBNavaid_primary", ("A" :> "NDBNavaid_cont" @@ "P" :> "NDBNavaid_flight_plan0" @@ "Q" :> "NDBNavaid_flight_plan1" @@ "S" :> "NDBNavaid_sim")) @@
  "PP" :> Kind(27, 28, "PathPoint_primary", ("E" :> "PathPoint_cont")) @@
  "PR" :> Kind(70, 71, "FlightPlanning_primary", ("A" :> "FlightPlanning_cont" @@ "T" :> "FlightPlanning_timeop")) @@
  "PS" :> Kind(39, 40, "AirportMSA_primary", ("A" :> "AirportMSA_cont")) @@
  "PT" :> Kind(22, 23, "GLS_primary", ("A" :> "GLS_cont")) @@
  "PV" :> Kind(26, 27, "AirportCommunication_primary", ("N" :> "AirportCommunication_cont_narr")) @@
  "R " :> Simple("CompanyRoute_primary") @@
  "RA" :> Simple("Alternate_primary") @@
  "TC" :> Simple("CruisingTables_primary") @@
  "TG" :> Kind(39, 40, "GeoReferenceTable_primary", ("A" :> "GeoReferenceTable_cont")) @@
  "UC" :> Kind(25, 26, "ControlledAirspace_primary", ("A" :> "ControlledAirspace_cont")) @@
  "UF" :> Kind(20, 21, "FIRUIR_primary", ("A" :> "FIRUIR_cont")) @@
  "UR" :> Kind(25, 26, "RestrictiveAirspace_primary", ("T" :> "RestrictiveAirspace_time" @@ "P" :> "RestrictiveAirspace_flight0" @@ "C" :> "RestrictiveAirspace_callsign"))

Sections == DOMAIN Kinds
=============================================================================
