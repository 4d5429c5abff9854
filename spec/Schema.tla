------------------------------- MODULE Schema -------------------------------
(* Object types, their logical record types and attributes; enumerations.      *)
(* Written by `python3 harness/schema.py` from the table in that file.          *)
EXTENDS TLC, Sequences, Integers

At(l, k, m, r, e) == [l |-> l, k |-> k, m |-> m, r |-> r, e |-> e]

SchemaOf ==
    "ORIGIN" :> [lr |-> 1, at |-> <<
        At("FILE-ID", "text", FALSE, "", ""),
        At("FILE-SET-NAME", "ident", FALSE, "", ""),
        At("FILE-SET-NUMBER", "uvari", FALSE, "", ""),
        At("FILE-NUMBER", "uvari", FALSE, "", ""),
        At("FILE-TYPE", "ident", FALSE, "", ""),
        At("PRODUCT", "text", FALSE, "", ""),
        At("VERSION", "text", FALSE, "", ""),
        At("PROGRAMS", "text", TRUE, "", ""),
        At("CREATION-TIME", "dtime", FALSE, "", ""),
        At("ORDER-NUMBER", "text", FALSE, "", ""),
        At("DESCENT-NUMBER", "unorm", FALSE, "", ""),
        At("RUN-NUMBER", "unorm", FALSE, "", ""),
        At("WELL-ID", "text", FALSE, "", ""),
        At("WELL-NAME", "text", FALSE, "", ""),
        At("FIELD-NAME", "text", FALSE, "", ""),
        At("PRODUCER-CODE", "unorm", FALSE, "", ""),
        At("PRODUCER-NAME", "text", FALSE, "", ""),
        At("COMPANY", "text", FALSE, "", ""),
        At("NAME-SPACE-NAME", "ident", FALSE, "", ""),
        At("NAME-SPACE-VERSION", "uvari", FALSE, "", "") >>] @@
    "AXIS" :> [lr |-> 2, at |-> <<
        At("AXIS-ID", "identv", FALSE, "", ""),
        At("COORDINATES", "any", TRUE, "", ""),
        At("SPACING", "num", FALSE, "", "") >>] @@
    "CALIBRATION" :> [lr |-> 5, at |-> <<
        At("CALIBRATED-CHANNELS", "ref", TRUE, "CHANNEL", ""),
        At("UNCALIBRATED-CHANNELS", "ref", TRUE, "CHANNEL", ""),
        At("COEFFICIENTS", "ref", TRUE, "CALIBRATION-COEFFICIENT", ""),
        At("MEASUREMENTS", "ref", TRUE, "CALIBRATION-MEASUREMENT", ""),
        At("PARAMETERS", "ref", TRUE, "PARAMETER", ""),
        At("METHOD", "ident", FALSE, "", "") >>] @@
    "CALIBRATION-COEFFICIENT" :> [lr |-> 5, at |-> <<
        At("LABEL", "identv", FALSE, "", ""),
        At("COEFFICIENTS", "num", TRUE, "", ""),
        At("REFERENCES", "num", TRUE, "", ""),
        At("PLUS-TOLERANCES", "num", TRUE, "", ""),
        At("MINUS-TOLERANCES", "num", TRUE, "", "") >>] @@
    "CALIBRATION-MEASUREMENT" :> [lr |-> 5, at |-> <<
        At("PHASE", "enumh", FALSE, "", "CalibrationMeasurementPhase"),
        At("MEASUREMENT-SOURCE", "oref", FALSE, "", ""),
        At("TYPE", "identv", FALSE, "", ""),
        At("DIMENSION", "dim", TRUE, "", ""),
        At("AXIS", "ref", TRUE, "AXIS", ""),
        At("MEASUREMENT", "num", TRUE, "", ""),
        At("SAMPLE-COUNT", "int", FALSE, "", ""),
        At("MAXIMUM-DEVIATION", "num", TRUE, "", ""),
        At("STANDARD-DEVIATION", "num", TRUE, "", ""),
        At("BEGIN-TIME", "dtimef", FALSE, "", ""),
        At("DURATION", "num", FALSE, "", ""),
        At("REFERENCE", "num", TRUE, "", ""),
        At("STANDARD", "num", TRUE, "", ""),
        At("PLUS-TOLERANCE", "num", TRUE, "", ""),
        At("MINUS-TOLERANCE", "num", TRUE, "", "") >>] @@
    "CHANNEL" :> [lr |-> 3, at |-> <<
        At("LONG-NAME", "lntext", FALSE, "", ""),
        At("PROPERTIES", "enumh", TRUE, "", "Property"),
        At("REPRESENTATION-CODE", "reprc", FALSE, "", ""),
        At("UNITS", "enums", FALSE, "", "Unit"),
        At("DIMENSION", "dim", TRUE, "", ""),
        At("AXIS", "ref", TRUE, "AXIS", ""),
        At("ELEMENT-LIMIT", "dim", TRUE, "", ""),
        At("SOURCE", "oref", FALSE, "", ""),
        At("MINIMUM-VALUE", "fdoubl", TRUE, "", ""),
        At("MAXIMUM-VALUE", "fdoubl", TRUE, "", "") >>] @@
    "COMMENT" :> [lr |-> 6, at |-> <<
        At("TEXT", "text", TRUE, "", "") >>] @@
    "COMPUTATION" :> [lr |-> 5, at |-> <<
        At("LONG-NAME", "lntext", FALSE, "", ""),
        At("PROPERTIES", "enumh", TRUE, "", "Property"),
        At("DIMENSION", "dim", TRUE, "", ""),
        At("AXIS", "ref", TRUE, "AXIS", ""),
        At("ZONES", "ref", TRUE, "ZONE", ""),
        At("VALUES", "num", TRUE, "", ""),
        At("SOURCE", "oref", FALSE, "", "") >>] @@
    "EQUIPMENT" :> [lr |-> 5, at |-> <<
        At("TRADEMARK-NAME", "text", FALSE, "", ""),
        At("STATUS", "status", FALSE, "", ""),
        At("TYPE", "enums", FALSE, "", "EquipmentType"),
        At("SERIAL-NUMBER", "identv", FALSE, "", ""),
        At("LOCATION", "enums", FALSE, "", "EquipmentLocation"),
        At("HEIGHT", "num", FALSE, "", ""),
        At("LENGTH", "num", FALSE, "", ""),
        At("MINIMUM-DIAMETER", "num", FALSE, "", ""),
        At("MAXIMUM-DIAMETER", "num", FALSE, "", ""),
        At("VOLUME", "num", FALSE, "", ""),
        At("WEIGHT", "num", FALSE, "", ""),
        At("HOLE-SIZE", "num", FALSE, "", ""),
        At("PRESSURE", "num", FALSE, "", ""),
        At("TEMPERATURE", "num", FALSE, "", ""),
        At("VERTICAL-DEPTH", "num", FALSE, "", ""),
        At("RADIAL-DRIFT", "num", FALSE, "", ""),
        At("ANGULAR-DRIFT", "num", FALSE, "", "") >>] @@
    "FRAME" :> [lr |-> 4, at |-> <<
        At("DESCRIPTION", "text", FALSE, "", ""),
        At("CHANNELS", "ref", TRUE, "CHANNEL", ""),
        At("INDEX-TYPE", "enums", FALSE, "", "FrameIndexType"),
        At("DIRECTION", "ident", FALSE, "", ""),
        At("SPACING", "num", FALSE, "", ""),
        At("ENCRYPTED", "enc", FALSE, "", ""),
        At("INDEX-MIN", "num", FALSE, "", ""),
        At("INDEX-MAX", "num", FALSE, "", "") >>] @@
    "GROUP" :> [lr |-> 5, at |-> <<
        At("DESCRIPTION", "text", FALSE, "", ""),
        At("OBJECT-TYPE", "identv", FALSE, "", ""),
        At("OBJECT-LIST", "oref", TRUE, "", ""),
        At("GROUP-LIST", "ref", TRUE, "GROUP", "") >>] @@
    "LONG-NAME" :> [lr |-> 9, at |-> <<
        At("GENERAL-MODIFIER", "text", TRUE, "", ""),
        At("QUANTITY", "text", FALSE, "", ""),
        At("QUANTITY-MODIFIER", "text", TRUE, "", ""),
        At("ALTERED-FORM", "text", FALSE, "", ""),
        At("ENTITY", "text", FALSE, "", ""),
        At("ENTITY-MODIFIER", "text", TRUE, "", ""),
        At("ENTITY-NUMBER", "text", FALSE, "", ""),
        At("ENTITY-PART", "text", FALSE, "", ""),
        At("ENTITY-PART-NUMBER", "text", FALSE, "", ""),
        At("GENERIC-SOURCE", "text", FALSE, "", ""),
        At("SOURCE-PART", "text", TRUE, "", ""),
        At("SOURCE-PART-NUMBER", "text", TRUE, "", ""),
        At("CONDITIONS", "text", TRUE, "", ""),
        At("STANDARD-SYMBOL", "text", FALSE, "", ""),
        At("PRIVATE-SYMBOL", "text", FALSE, "", "") >>] @@
    "MESSAGE" :> [lr |-> 6, at |-> <<
        At("TYPE", "ident", FALSE, "", ""),
        At("TIME", "dtimef", FALSE, "", ""),
        At("BOREHOLE-DRIFT", "num", FALSE, "", ""),
        At("VERTICAL-DEPTH", "num", FALSE, "", ""),
        At("RADIAL-DRIFT", "num", FALSE, "", ""),
        At("ANGULAR-DRIFT", "num", FALSE, "", ""),
        At("TEXT", "text", TRUE, "", "") >>] @@
    "NO-FORMAT" :> [lr |-> 8, at |-> <<
        At("CONSUMER-NAME", "ident", FALSE, "", ""),
        At("DESCRIPTION", "text", FALSE, "", "") >>] @@
    "PARAMETER" :> [lr |-> 5, at |-> <<
        At("LONG-NAME", "lntext", FALSE, "", ""),
        At("DIMENSION", "dim", TRUE, "", ""),
        At("AXIS", "ref", TRUE, "AXIS", ""),
        At("ZONES", "ref", TRUE, "ZONE", ""),
        At("VALUES", "any", TRUE, "", "") >>] @@
    "PATH" :> [lr |-> 4, at |-> <<
        At("FRAME-TYPE", "ref", FALSE, "FRAME", ""),
        At("WELL-REFERENCE-POINT", "ref", FALSE, "WELL-REFERENCE", ""),
        At("VALUE", "ref", TRUE, "CHANNEL", ""),
        At("BOREHOLE-DEPTH", "num", FALSE, "", ""),
        At("VERTICAL-DEPTH", "num", FALSE, "", ""),
        At("RADIAL-DRIFT", "num", FALSE, "", ""),
        At("ANGULAR-DRIFT", "num", FALSE, "", ""),
        At("TIME", "num", FALSE, "", ""),
        At("DEPTH-OFFSET", "num", FALSE, "", ""),
        At("MEASURE-POINT-OFFSET", "num", FALSE, "", ""),
        At("TOOL-ZERO-OFFSET", "num", FALSE, "", "") >>] @@
    "PROCESS" :> [lr |-> 5, at |-> <<
        At("DESCRIPTION", "text", FALSE, "", ""),
        At("TRADEMARK-NAME", "text", FALSE, "", ""),
        At("VERSION", "text", FALSE, "", ""),
        At("PROPERTIES", "enumh", TRUE, "", "Property"),
        At("STATUS", "enumh", FALSE, "", "ProcessStatus"),
        At("INPUT-CHANNELS", "ref", TRUE, "CHANNEL", ""),
        At("OUTPUT-CHANNELS", "ref", TRUE, "CHANNEL", ""),
        At("INPUT-COMPUTATIONS", "ref", TRUE, "COMPUTATION", ""),
        At("OUTPUT-COMPUTATIONS", "ref", TRUE, "COMPUTATION", ""),
        At("PARAMETERS", "ref", TRUE, "PARAMETER", ""),
        At("COMMENTS", "text", TRUE, "", "") >>] @@
    "SPLICE" :> [lr |-> 5, at |-> <<
        At("OUTPUT-CHANNEL", "ref", FALSE, "CHANNEL", ""),
        At("INPUT-CHANNELS", "ref", TRUE, "CHANNEL", ""),
        At("ZONES", "ref", TRUE, "ZONE", "") >>] @@
    "TOOL" :> [lr |-> 5, at |-> <<
        At("DESCRIPTION", "text", FALSE, "", ""),
        At("TRADEMARK-NAME", "text", FALSE, "", ""),
        At("GENERIC-NAME", "text", FALSE, "", ""),
        At("PARTS", "ref", TRUE, "EQUIPMENT", ""),
        At("STATUS", "status", FALSE, "", ""),
        At("CHANNELS", "ref", TRUE, "CHANNEL", ""),
        At("PARAMETERS", "ref", TRUE, "PARAMETER", "") >>] @@
    "WELL-REFERENCE" :> [lr |-> 1, at |-> <<
        At("PERMANENT-DATUM", "text", FALSE, "", ""),
        At("VERTICAL-ZERO", "text", FALSE, "", ""),
        At("PERMANENT-DATUM-ELEVATION", "fdoubl", FALSE, "", ""),
        At("ABOVE-PERMANENT-DATUM", "fdoubl", FALSE, "", ""),
        At("MAGNETIC-DECLINATION", "fdoubl", FALSE, "", ""),
        At("COORDINATE-1-NAME", "text", FALSE, "", ""),
        At("COORDINATE-1-VALUE", "fdoubl", FALSE, "", ""),
        At("COORDINATE-2-NAME", "text", FALSE, "", ""),
        At("COORDINATE-2-VALUE", "fdoubl", FALSE, "", ""),
        At("COORDINATE-3-NAME", "text", FALSE, "", ""),
        At("COORDINATE-3-VALUE", "fdoubl", FALSE, "", "") >>] @@
    "ZONE" :> [lr |-> 5, at |-> <<
        At("DESCRIPTION", "text", FALSE, "", ""),
        At("DOMAIN", "enumh", FALSE, "", "ZoneDomain"),
        At("MAXIMUM", "dtimef", FALSE, "", ""),
        At("MINIMUM", "dtimef", FALSE, "", "") >>]

ObjTypes == DOMAIN SchemaOf
AttrDef(ty, l) == LET s == SchemaOf[ty].at IN s[CHOOSE i \in 1..Len(s) : s[i].l = l]
LabelsOf(ty) == {SchemaOf[ty].at[i].l : i \in 1..Len(SchemaOf[ty].at)}

\* character codes
TypeCodes ==
    "ORIGIN" :> << 79, 82, 73, 71, 73, 78 >> @@
    "AXIS" :> << 65, 88, 73, 83 >> @@
    "CALIBRATION" :> << 67, 65, 76, 73, 66, 82, 65, 84, 73, 79, 78 >> @@
    "CALIBRATION-COEFFICIENT" :> << 67, 65, 76, 73, 66, 82, 65, 84, 73, 79, 78, 45, 67, 79, 69, 70, 70, 73, 67, 73, 69, 78, 84 >> @@
    "CALIBRATION-MEASUREMENT" :> << 67, 65, 76, 73, 66, 82, 65, 84, 73, 79, 78, 45, 77, 69, 65, 83, 85, 82, 69, 77, 69, 78, 84 >> @@
    "CHANNEL" :> << 67, 72, 65, 78, 78, 69, 76 >> @@
    "COMMENT" :> << 67, 79, 77, 77, 69, 78, 84 >> @@
    "COMPUTATION" :> << 67, 79, 77, 80, 85, 84, 65, 84, 73, 79, 78 >> @@
    "EQUIPMENT" :> << 69, 81, 85, 73, 80, 77, 69, 78, 84 >> @@
    "FRAME" :> << 70, 82, 65, 77, 69 >> @@
    "GROUP" :> << 71, 82, 79, 85, 80 >> @@
    "LONG-NAME" :> << 76, 79, 78, 71, 45, 78, 65, 77, 69 >> @@
    "MESSAGE" :> << 77, 69, 83, 83, 65, 71, 69 >> @@
    "NO-FORMAT" :> << 78, 79, 45, 70, 79, 82, 77, 65, 84 >> @@
    "PARAMETER" :> << 80, 65, 82, 65, 77, 69, 84, 69, 82 >> @@
    "PATH" :> << 80, 65, 84, 72 >> @@
    "PROCESS" :> << 80, 82, 79, 67, 69, 83, 83 >> @@
    "SPLICE" :> << 83, 80, 76, 73, 67, 69 >> @@
    "TOOL" :> << 84, 79, 79, 76 >> @@
    "WELL-REFERENCE" :> << 87, 69, 76, 76, 45, 82, 69, 70, 69, 82, 69, 78, 67, 69 >> @@
    "ZONE" :> << 90, 79, 78, 69 >> @@
    "FILE-HEADER" :> << 70, 73, 76, 69, 45, 72, 69, 65, 68, 69, 82 >>

LabelCodes ==
    "FILE-ID" :> << 70, 73, 76, 69, 45, 73, 68 >> @@
    "FILE-SET-NAME" :> << 70, 73, 76, 69, 45, 83, 69, 84, 45, 78, 65, 77, 69 >> @@
    "FILE-SET-NUMBER" :> << 70, 73, 76, 69, 45, 83, 69, 84, 45, 78, 85, 77, 66, 69, 82 >> @@
    "FILE-NUMBER" :> << 70, 73, 76, 69, 45, 78, 85, 77, 66, 69, 82 >> @@
    "FILE-TYPE" :> << 70, 73, 76, 69, 45, 84, 89, 80, 69 >> @@
    "PRODUCT" :> << 80, 82, 79, 68, 85, 67, 84 >> @@
    "VERSION" :> << 86, 69, 82, 83, 73, 79, 78 >> @@
    "PROGRAMS" :> << 80, 82, 79, 71, 82, 65, 77, 83 >> @@
    "CREATION-TIME" :> << 67, 82, 69, 65, 84, 73, 79, 78, 45, 84, 73, 77, 69 >> @@
    "ORDER-NUMBER" :> << 79, 82, 68, 69, 82, 45, 78, 85, 77, 66, 69, 82 >> @@
    "DESCENT-NUMBER" :> << 68, 69, 83, 67, 69, 78, 84, 45, 78, 85, 77, 66, 69, 82 >> @@
    "RUN-NUMBER" :> << 82, 85, 78, 45, 78, 85, 77, 66, 69, 82 >> @@
    "WELL-ID" :> << 87, 69, 76, 76, 45, 73, 68 >> @@
    "WELL-NAME" :> << 87, 69, 76, 76, 45, 78, 65, 77, 69 >> @@
    "FIELD-NAME" :> << 70, 73, 69, 76, 68, 45, 78, 65, 77, 69 >> @@
    "PRODUCER-CODE" :> << 80, 82, 79, 68, 85, 67, 69, 82, 45, 67, 79, 68, 69 >> @@
    "PRODUCER-NAME" :> << 80, 82, 79, 68, 85, 67, 69, 82, 45, 78, 65, 77, 69 >> @@
    "COMPANY" :> << 67, 79, 77, 80, 65, 78, 89 >> @@
    "NAME-SPACE-NAME" :> << 78, 65, 77, 69, 45, 83, 80, 65, 67, 69, 45, 78, 65, 77, 69 >> @@
    "NAME-SPACE-VERSION" :> << 78, 65, 77, 69, 45, 83, 80, 65, 67, 69, 45, 86, 69, 82, 83, 73, 79, 78 >> @@
    "AXIS-ID" :> << 65, 88, 73, 83, 45, 73, 68 >> @@
    "COORDINATES" :> << 67, 79, 79, 82, 68, 73, 78, 65, 84, 69, 83 >> @@
    "SPACING" :> << 83, 80, 65, 67, 73, 78, 71 >> @@
    "CALIBRATED-CHANNELS" :> << 67, 65, 76, 73, 66, 82, 65, 84, 69, 68, 45, 67, 72, 65, 78, 78, 69, 76, 83 >> @@
    "UNCALIBRATED-CHANNELS" :> << 85, 78, 67, 65, 76, 73, 66, 82, 65, 84, 69, 68, 45, 67, 72, 65, 78, 78, 69, 76, 83 >> @@
    "COEFFICIENTS" :> << 67, 79, 69, 70, 70, 73, 67, 73, 69, 78, 84, 83 >> @@
    "MEASUREMENTS" :> << 77, 69, 65, 83, 85, 82, 69, 77, 69, 78, 84, 83 >> @@
    "PARAMETERS" :> << 80, 65, 82, 65, 77, 69, 84, 69, 82, 83 >> @@
    "METHOD" :> << 77, 69, 84, 72, 79, 68 >> @@
    "LABEL" :> << 76, 65, 66, 69, 76 >> @@
    "REFERENCES" :> << 82, 69, 70, 69, 82, 69, 78, 67, 69, 83 >> @@
    "PLUS-TOLERANCES" :> << 80, 76, 85, 83, 45, 84, 79, 76, 69, 82, 65, 78, 67, 69, 83 >> @@
    "MINUS-TOLERANCES" :> << 77, 73, 78, 85, 83, 45, 84, 79, 76, 69, 82, 65, 78, 67, 69, 83 >> @@
    "PHASE" :> << 80, 72, 65, 83, 69 >> @@
    "MEASUREMENT-SOURCE" :> << 77, 69, 65, 83, 85, 82, 69, 77, 69, 78, 84, 45, 83, 79, 85, 82, 67, 69 >> @@
    "TYPE" :> << 84, 89, 80, 69 >> @@
    "DIMENSION" :> << 68, 73, 77, 69, 78, 83, 73, 79, 78 >> @@
    "AXIS" :> << 65, 88, 73, 83 >> @@
    "MEASUREMENT" :> << 77, 69, 65, 83, 85, 82, 69, 77, 69, 78, 84 >> @@
    "SAMPLE-COUNT" :> << 83, 65, 77, 80, 76, 69, 45, 67, 79, 85, 78, 84 >> @@
    "MAXIMUM-DEVIATION" :> << 77, 65, 88, 73, 77, 85, 77, 45, 68, 69, 86, 73, 65, 84, 73, 79, 78 >> @@
    "STANDARD-DEVIATION" :> << 83, 84, 65, 78, 68, 65, 82, 68, 45, 68, 69, 86, 73, 65, 84, 73, 79, 78 >> @@
    "BEGIN-TIME" :> << 66, 69, 71, 73, 78, 45, 84, 73, 77, 69 >> @@
    "DURATION" :> << 68, 85, 82, 65, 84, 73, 79, 78 >> @@
    "REFERENCE" :> << 82, 69, 70, 69, 82, 69, 78, 67, 69 >> @@
    "STANDARD" :> << 83, 84, 65, 78, 68, 65, 82, 68 >> @@
    "PLUS-TOLERANCE" :> << 80, 76, 85, 83, 45, 84, 79, 76, 69, 82, 65, 78, 67, 69 >> @@
    "MINUS-TOLERANCE" :> << 77, 73, 78, 85, 83, 45, 84, 79, 76, 69, 82, 65, 78, 67, 69 >> @@
    "LONG-NAME" :> << 76, 79, 78, 71, 45, 78, 65, 77, 69 >> @@
    "PROPERTIES" :> << 80, 82, 79, 80, 69, 82, 84, 73, 69, 83 >> @@
    "REPRESENTATION-CODE" :> << 82, 69, 80, 82, 69, 83, 69, 78, 84, 65, 84, 73, 79, 78, 45, 67, 79, 68, 69 >> @@
    "UNITS" :> << 85, 78, 73, 84, 83 >> @@
    "ELEMENT-LIMIT" :> << 69, 76, 69, 77, 69, 78, 84, 45, 76, 73, 77, 73, 84 >> @@
    "SOURCE" :> << 83, 79, 85, 82, 67, 69 >> @@
    "MINIMUM-VALUE" :> << 77, 73, 78, 73, 77, 85, 77, 45, 86, 65, 76, 85, 69 >> @@
    "MAXIMUM-VALUE" :> << 77, 65, 88, 73, 77, 85, 77, 45, 86, 65, 76, 85, 69 >> @@
    "TEXT" :> << 84, 69, 88, 84 >> @@
    "ZONES" :> << 90, 79, 78, 69, 83 >> @@
    "VALUES" :> << 86, 65, 76, 85, 69, 83 >> @@
    "TRADEMARK-NAME" :> << 84, 82, 65, 68, 69, 77, 65, 82, 75, 45, 78, 65, 77, 69 >> @@
    "STATUS" :> << 83, 84, 65, 84, 85, 83 >> @@
    "SERIAL-NUMBER" :> << 83, 69, 82, 73, 65, 76, 45, 78, 85, 77, 66, 69, 82 >> @@
    "LOCATION" :> << 76, 79, 67, 65, 84, 73, 79, 78 >> @@
    "HEIGHT" :> << 72, 69, 73, 71, 72, 84 >> @@
    "LENGTH" :> << 76, 69, 78, 71, 84, 72 >> @@
    "MINIMUM-DIAMETER" :> << 77, 73, 78, 73, 77, 85, 77, 45, 68, 73, 65, 77, 69, 84, 69, 82 >> @@
    "MAXIMUM-DIAMETER" :> << 77, 65, 88, 73, 77, 85, 77, 45, 68, 73, 65, 77, 69, 84, 69, 82 >> @@
    "VOLUME" :> << 86, 79, 76, 85, 77, 69 >> @@
    "WEIGHT" :> << 87, 69, 73, 71, 72, 84 >> @@
    "HOLE-SIZE" :> << 72, 79, 76, 69, 45, 83, 73, 90, 69 >> @@
    "PRESSURE" :> << 80, 82, 69, 83, 83, 85, 82, 69 >> @@
    "TEMPERATURE" :> << 84, 69, 77, 80, 69, 82, 65, 84, 85, 82, 69 >> @@
    "VERTICAL-DEPTH" :> << 86, 69, 82, 84, 73, 67, 65, 76, 45, 68, 69, 80, 84, 72 >> @@
    "RADIAL-DRIFT" :> << 82, 65, 68, 73, 65, 76, 45, 68, 82, 73, 70, 84 >> @@
    "ANGULAR-DRIFT" :> << 65, 78, 71, 85, 76, 65, 82, 45, 68, 82, 73, 70, 84 >> @@
    "DESCRIPTION" :> << 68, 69, 83, 67, 82, 73, 80, 84, 73, 79, 78 >> @@
    "CHANNELS" :> << 67, 72, 65, 78, 78, 69, 76, 83 >> @@
    "INDEX-TYPE" :> << 73, 78, 68, 69, 88, 45, 84, 89, 80, 69 >> @@
    "DIRECTION" :> << 68, 73, 82, 69, 67, 84, 73, 79, 78 >> @@
    "ENCRYPTED" :> << 69, 78, 67, 82, 89, 80, 84, 69, 68 >> @@
    "INDEX-MIN" :> << 73, 78, 68, 69, 88, 45, 77, 73, 78 >> @@
    "INDEX-MAX" :> << 73, 78, 68, 69, 88, 45, 77, 65, 88 >> @@
    "OBJECT-TYPE" :> << 79, 66, 74, 69, 67, 84, 45, 84, 89, 80, 69 >> @@
    "OBJECT-LIST" :> << 79, 66, 74, 69, 67, 84, 45, 76, 73, 83, 84 >> @@
    "GROUP-LIST" :> << 71, 82, 79, 85, 80, 45, 76, 73, 83, 84 >> @@
    "GENERAL-MODIFIER" :> << 71, 69, 78, 69, 82, 65, 76, 45, 77, 79, 68, 73, 70, 73, 69, 82 >> @@
    "QUANTITY" :> << 81, 85, 65, 78, 84, 73, 84, 89 >> @@
    "QUANTITY-MODIFIER" :> << 81, 85, 65, 78, 84, 73, 84, 89, 45, 77, 79, 68, 73, 70, 73, 69, 82 >> @@
    "ALTERED-FORM" :> << 65, 76, 84, 69, 82, 69, 68, 45, 70, 79, 82, 77 >> @@
    "ENTITY" :> << 69, 78, 84, 73, 84, 89 >> @@
    "ENTITY-MODIFIER" :> << 69, 78, 84, 73, 84, 89, 45, 77, 79, 68, 73, 70, 73, 69, 82 >> @@
    "ENTITY-NUMBER" :> << 69, 78, 84, 73, 84, 89, 45, 78, 85, 77, 66, 69, 82 >> @@
    "ENTITY-PART" :> << 69, 78, 84, 73, 84, 89, 45, 80, 65, 82, 84 >> @@
    "ENTITY-PART-NUMBER" :> << 69, 78, 84, 73, 84, 89, 45, 80, 65, 82, 84, 45, 78, 85, 77, 66, 69, 82 >> @@
    "GENERIC-SOURCE" :> << 71, 69, 78, 69, 82, 73, 67, 45, 83, 79, 85, 82, 67, 69 >> @@
    "SOURCE-PART" :> << 83, 79, 85, 82, 67, 69, 45, 80, 65, 82, 84 >> @@
    "SOURCE-PART-NUMBER" :> << 83, 79, 85, 82, 67, 69, 45, 80, 65, 82, 84, 45, 78, 85, 77, 66, 69, 82 >> @@
    "CONDITIONS" :> << 67, 79, 78, 68, 73, 84, 73, 79, 78, 83 >> @@
    "STANDARD-SYMBOL" :> << 83, 84, 65, 78, 68, 65, 82, 68, 45, 83, 89, 77, 66, 79, 76 >> @@
    "PRIVATE-SYMBOL" :> << 80, 82, 73, 86, 65, 84, 69, 45, 83, 89, 77, 66, 79, 76 >> @@
    "TIME" :> << 84, 73, 77, 69 >> @@
    "BOREHOLE-DRIFT" :> << 66, 79, 82, 69, 72, 79, 76, 69, 45, 68, 82, 73, 70, 84 >> @@
    "CONSUMER-NAME" :> << 67, 79, 78, 83, 85, 77, 69, 82, 45, 78, 65, 77, 69 >> @@
    "FRAME-TYPE" :> << 70, 82, 65, 77, 69, 45, 84, 89, 80, 69 >> @@
    "WELL-REFERENCE-POINT" :> << 87, 69, 76, 76, 45, 82, 69, 70, 69, 82, 69, 78, 67, 69, 45, 80, 79, 73, 78, 84 >> @@
    "VALUE" :> << 86, 65, 76, 85, 69 >> @@
    "BOREHOLE-DEPTH" :> << 66, 79, 82, 69, 72, 79, 76, 69, 45, 68, 69, 80, 84, 72 >> @@
    "DEPTH-OFFSET" :> << 68, 69, 80, 84, 72, 45, 79, 70, 70, 83, 69, 84 >> @@
    "MEASURE-POINT-OFFSET" :> << 77, 69, 65, 83, 85, 82, 69, 45, 80, 79, 73, 78, 84, 45, 79, 70, 70, 83, 69, 84 >> @@
    "TOOL-ZERO-OFFSET" :> << 84, 79, 79, 76, 45, 90, 69, 82, 79, 45, 79, 70, 70, 83, 69, 84 >> @@
    "INPUT-CHANNELS" :> << 73, 78, 80, 85, 84, 45, 67, 72, 65, 78, 78, 69, 76, 83 >> @@
    "OUTPUT-CHANNELS" :> << 79, 85, 84, 80, 85, 84, 45, 67, 72, 65, 78, 78, 69, 76, 83 >> @@
    "INPUT-COMPUTATIONS" :> << 73, 78, 80, 85, 84, 45, 67, 79, 77, 80, 85, 84, 65, 84, 73, 79, 78, 83 >> @@
    "OUTPUT-COMPUTATIONS" :> << 79, 85, 84, 80, 85, 84, 45, 67, 79, 77, 80, 85, 84, 65, 84, 73, 79, 78, 83 >> @@
    "COMMENTS" :> << 67, 79, 77, 77, 69, 78, 84, 83 >> @@
    "OUTPUT-CHANNEL" :> << 79, 85, 84, 80, 85, 84, 45, 67, 72, 65, 78, 78, 69, 76 >> @@
    "GENERIC-NAME" :> << 71, 69, 78, 69, 82, 73, 67, 45, 78, 65, 77, 69 >> @@
    "PARTS" :> << 80, 65, 82, 84, 83 >> @@
    "PERMANENT-DATUM" :> << 80, 69, 82, 77, 65, 78, 69, 78, 84, 45, 68, 65, 84, 85, 77 >> @@
    "VERTICAL-ZERO" :> << 86, 69, 82, 84, 73, 67, 65, 76, 45, 90, 69, 82, 79 >> @@
    "PERMANENT-DATUM-ELEVATION" :> << 80, 69, 82, 77, 65, 78, 69, 78, 84, 45, 68, 65, 84, 85, 77, 45, 69, 76, 69, 86, 65, 84, 73, 79, 78 >> @@
    "ABOVE-PERMANENT-DATUM" :> << 65, 66, 79, 86, 69, 45, 80, 69, 82, 77, 65, 78, 69, 78, 84, 45, 68, 65, 84, 85, 77 >> @@
    "MAGNETIC-DECLINATION" :> << 77, 65, 71, 78, 69, 84, 73, 67, 45, 68, 69, 67, 76, 73, 78, 65, 84, 73, 79, 78 >> @@
    "COORDINATE-1-NAME" :> << 67, 79, 79, 82, 68, 73, 78, 65, 84, 69, 45, 49, 45, 78, 65, 77, 69 >> @@
    "COORDINATE-1-VALUE" :> << 67, 79, 79, 82, 68, 73, 78, 65, 84, 69, 45, 49, 45, 86, 65, 76, 85, 69 >> @@
    "COORDINATE-2-NAME" :> << 67, 79, 79, 82, 68, 73, 78, 65, 84, 69, 45, 50, 45, 78, 65, 77, 69 >> @@
    "COORDINATE-2-VALUE" :> << 67, 79, 79, 82, 68, 73, 78, 65, 84, 69, 45, 50, 45, 86, 65, 76, 85, 69 >> @@
    "COORDINATE-3-NAME" :> << 67, 79, 79, 82, 68, 73, 78, 65, 84, 69, 45, 51, 45, 78, 65, 77, 69 >> @@
    "COORDINATE-3-VALUE" :> << 67, 79, 79, 82, 68, 73, 78, 65, 84, 69, 45, 51, 45, 86, 65, 76, 85, 69 >> @@
    "DOMAIN" :> << 68, 79, 77, 65, 73, 78 >> @@
    "MAXIMUM" :> << 77, 65, 88, 73, 77, 85, 77 >> @@
    "MINIMUM" :> << 77, 73, 78, 73, 77, 85, 77 >> @@
    "SEQUENCE-NUMBER" :> << 83, 69, 81, 85, 69, 78, 67, 69, 45, 78, 85, 77, 66, 69, 82 >> @@
    "ID" :> << 73, 68 >>

EnumOf ==
    "Unit" :> {
        "A", "K", "cd", "dAPI", "dB", "gAPI", "kg", "m", "mol", "nAPI", "rad", "s", "sr", "Btu", "C", "D", "GPa",
        "Gal", "Hz", "J", "L", "MHz", "MPa", "MeV", "Mg", "Mpsi", "N", "Oe", "P", "Pa", "S", "T", "V", "W", "Wb",
        "a", "acre", "atm", "b", "bar", "bbl", "c", "cP", "cal", "cm", "cu", "d", "daN", "deg", "degC", "degF",
        "dm", "eV", "fC", "ft", "g", "gal", "h", "in", "kHz", "kPa", "kV", "keV", "kgf", "km", "lbf", "lbm", "mA",
        "mC", "mD", "mGal", "mL", "mS", "mT", "mV", "mW", "mg", "min", "mm", "mohm", "ms", "nC", "nW", "ns", "ohm",
        "pC", "pPa", "ppdk", "ppk", "ppm", "psi", "pu", "t", "ton", "uA", "uC", "uPa", "uV", "um", "uohm", "upsi",
        "us" } @@
    "Property" :> {
        "AVERAGED", "CALIBRATED", "CHANGED-INDEX", "COMPUTED", "DEPTH-MATCHED", "DERIVED", "FILTERED",
        "HOLE-SIZE-CORRECTED", "INCLINOMETRY-CORRECTD", "LITHOLOGY-CORRECTED", "LOCAL-COMPUTATION",
        "LOCALLY-DEFINED", "MODELLED", "MUDCAKE-CORRECTED", "NORMALIZED", "OVER-SAMPLED", "PATCHED",
        "PRESSURE-CORRECTED", "RE-SAMPLED", "SALINITY-CORRECTED", "SAMPLED-DOWNWARD", "SAMPLED-UPWARD",
        "SPEED-CORRECTED", "SPLICED", "SQUARED", "STACKED", "STANDARD-DEVIATION", "STANDOFF-CORRECTED",
        "TEMPERATURE-CORRECTED", "UNDER-SAMPLED" } @@
    "CalibrationMeasurementPhase" :> {
        "AFTER", "BEFORE", "MASTER" } @@
    "EquipmentType" :> {
        "Adapter", "Board", "Bottom-Nose", "Bridle", "Cable", "Calibrator", "Cartridge", "Centralizer", "Chamber",
        "Cushion", "Depth-Device", "Display", "Drawer", "Excentralizer", "Explosive-Source", "Flask", "Geophone",
        "Gun", "Head", "Housing", "Jig", "Joint", "Nuclear-Detector", "Packer", "Pad", "Pane", "Positioning",
        "Printer", "Radioactive-Source", "Shield", "Simulator", "Skid", "Sonde", "Spacer", "Standoff", "System",
        "Tool", "Tool-Module", "Transducer", "Vibration-Source" } @@
    "EquipmentLocation" :> {
        "Logging-System", "Remote", "Rig", "Well" } @@
    "FrameIndexType" :> {
        "ANGULAR-DRIFT", "BOREHOLE-DEPTH", "NON-STANDARD", "RADIAL-DRIFT", "VERTICAL-DEPTH" } @@
    "ProcessStatus" :> {
        "COMPLETE", "ABORTED", "IN-PROGRESS" } @@
    "ZoneDomain" :> {
        "BOREHOLE-DEPTH", "TIME", "VERTICAL-DEPTH" }

\* character codes of the first two of each
EnumCodes ==
    "Unit" :> << << 65 >>, << 75 >> >> @@
    "Property" :> << << 65, 86, 69, 82, 65, 71, 69, 68 >>, << 67, 65, 76, 73, 66, 82, 65, 84, 69, 68 >> >> @@
    "CalibrationMeasurementPhase" :> << << 65, 70, 84, 69, 82 >>, << 66, 69, 70, 79, 82, 69 >> >> @@
    "EquipmentType" :> << << 65, 100, 97, 112, 116, 101, 114 >>, << 66, 111, 97, 114, 100 >> >> @@
    "EquipmentLocation" :> << << 76, 111, 103, 103, 105, 110, 103, 45, 83, 121, 115, 116, 101, 109 >>, << 82, 101, 109, 111, 116, 101 >> >> @@
    "FrameIndexType" :> << << 65, 78, 71, 85, 76, 65, 82, 45, 68, 82, 73, 70, 84 >>, << 66, 79, 82, 69, 72, 79, 76, 69, 45, 68, 69, 80, 84, 72 >> >> @@
    "ProcessStatus" :> << << 67, 79, 77, 80, 76, 69, 84, 69 >>, << 65, 66, 79, 82, 84, 69, 68 >> >> @@
    "ZoneDomain" :> << << 66, 79, 82, 69, 72, 79, 76, 69, 45, 68, 69, 80, 84, 72 >>, << 84, 73, 77, 69 >> >>

=============================================================================
