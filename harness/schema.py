"""The attributes of every object type: standard label, Python names, kind of values.

`python3 schema.py` prints spec/Schema.tla, which is what the specification uses; this table serves the generator and
the driver (names of methods and keyword arguments of the public API).

kinds:
  text   ASCII text                       ident  IDENT text
  num    number (written as a float)      fdoubl number, FDOUBL          unorm / uvari  unsigned integers
  int    integer                          enc    encryption flag 0/1     status  0/1     dim  list of UVARI
  dtime  date-time                        dtimef date-time or number
  any    numbers or text                  lntext text or a LONG-NAME object
  ref:T  reference(s) to objects of set type T (OBNAME)                  oref   reference to any object (OBJREF)
  enum:E:soft|hard   IDENT from the enumeration E;  prop = enum:Property:hard
"""

A = lambda label, kind, multi=False, kw=None, py=None: (
    label, py or label.lower().replace('-', '_'), (kw if kw is not None else py or label.lower().replace('-', '_')), kind, multi)


def _nums(*labels):
    return [A(x, 'num') for x in labels]


TYPES = {
    'ORIGIN': ('add_origin', 1, [
        A('FILE-ID', 'text', kw=''), A('FILE-SET-NAME', 'ident'), A('FILE-SET-NUMBER', 'uvari'),
        A('FILE-NUMBER', 'uvari'), A('FILE-TYPE', 'ident'), A('PRODUCT', 'text'), A('VERSION', 'text'),
        A('PROGRAMS', 'text', True), A('CREATION-TIME', 'dtime'), A('ORDER-NUMBER', 'text'),
        A('DESCENT-NUMBER', 'unorm'), A('RUN-NUMBER', 'unorm'), A('WELL-ID', 'text'), A('WELL-NAME', 'text'),
        A('FIELD-NAME', 'text'), A('PRODUCER-CODE', 'unorm'), A('PRODUCER-NAME', 'text'), A('COMPANY', 'text'),
        A('NAME-SPACE-NAME', 'ident'), A('NAME-SPACE-VERSION', 'uvari')]),
    'AXIS': ('add_axis', 2, [
        A('AXIS-ID', 'identv'), A('COORDINATES', 'any', True), A('SPACING', 'num')]),
    'CALIBRATION': ('add_calibration', 5, [
        A('CALIBRATED-CHANNELS', 'ref:CHANNEL', True), A('UNCALIBRATED-CHANNELS', 'ref:CHANNEL', True),
        A('COEFFICIENTS', 'ref:CALIBRATION-COEFFICIENT', True),
        A('MEASUREMENTS', 'ref:CALIBRATION-MEASUREMENT', True), A('PARAMETERS', 'ref:PARAMETER', True),
        A('METHOD', 'ident')]),
    'CALIBRATION-COEFFICIENT': ('add_calibration_coefficient', 5, [
        A('LABEL', 'identv'), A('COEFFICIENTS', 'num', True), A('REFERENCES', 'num', True),
        A('PLUS-TOLERANCES', 'num', True), A('MINUS-TOLERANCES', 'num', True)]),
    'CALIBRATION-MEASUREMENT': ('add_calibration_measurement', 5, [
        A('PHASE', 'enum:CalibrationMeasurementPhase:hard'), A('MEASUREMENT-SOURCE', 'oref'),
        A('TYPE', 'identv', kw='measurement_type'), A('DIMENSION', 'dim', True), A('AXIS', 'ref:AXIS', True),
        A('MEASUREMENT', 'num', True), A('SAMPLE-COUNT', 'int'), A('MAXIMUM-DEVIATION', 'num', True),
        A('STANDARD-DEVIATION', 'num', True), A('BEGIN-TIME', 'dtimef'), A('DURATION', 'num'),
        A('REFERENCE', 'num', True), A('STANDARD', 'num', True), A('PLUS-TOLERANCE', 'num', True),
        A('MINUS-TOLERANCE', 'num', True)]),
    'CHANNEL': ('add_channel', 3, [
        A('LONG-NAME', 'lntext'), A('PROPERTIES', 'enum:Property:hard', True),
        A('REPRESENTATION-CODE', 'reprc', kw=''), A('UNITS', 'enum:Unit:soft'), A('DIMENSION', 'dim', True),
        A('AXIS', 'ref:AXIS', True), A('ELEMENT-LIMIT', 'dim', True), A('SOURCE', 'oref'),
        A('MINIMUM-VALUE', 'fdoubl', True), A('MAXIMUM-VALUE', 'fdoubl', True)]),
    'COMMENT': ('add_comment', 6, [A('TEXT', 'text', True)]),
    'COMPUTATION': ('add_computation', 5, [
        A('LONG-NAME', 'lntext'), A('PROPERTIES', 'enum:Property:hard', True), A('DIMENSION', 'dim', True),
        A('AXIS', 'ref:AXIS', True), A('ZONES', 'ref:ZONE', True), A('VALUES', 'num', True), A('SOURCE', 'oref')]),
    'EQUIPMENT': ('add_equipment', 5, [
        A('TRADEMARK-NAME', 'text'), A('STATUS', 'status'),
        A('TYPE', 'enum:EquipmentType:soft', kw='eq_type', py='_type'), A('SERIAL-NUMBER', 'identv'),
        A('LOCATION', 'enum:EquipmentLocation:soft'),
        *_nums('HEIGHT', 'LENGTH', 'MINIMUM-DIAMETER', 'MAXIMUM-DIAMETER', 'VOLUME', 'WEIGHT', 'HOLE-SIZE',
               'PRESSURE', 'TEMPERATURE', 'VERTICAL-DEPTH', 'RADIAL-DRIFT', 'ANGULAR-DRIFT')]),
    'FRAME': ('add_frame', 4, [
        A('DESCRIPTION', 'text'), A('CHANNELS', 'ref:CHANNEL', True), A('INDEX-TYPE', 'enum:FrameIndexType:soft'),
        A('DIRECTION', 'ident'), A('SPACING', 'num'), A('ENCRYPTED', 'enc'), A('INDEX-MIN', 'num'),
        A('INDEX-MAX', 'num')]),
    'GROUP': ('add_group', 5, [
        A('DESCRIPTION', 'text'), A('OBJECT-TYPE', 'identv', kw=''), A('OBJECT-LIST', 'oref', True),
        A('GROUP-LIST', 'ref:GROUP', True)]),
    'LONG-NAME': ('add_long_name', 9, [
        A('GENERAL-MODIFIER', 'text', True), A('QUANTITY', 'text'), A('QUANTITY-MODIFIER', 'text', True),
        A('ALTERED-FORM', 'text'), A('ENTITY', 'text'), A('ENTITY-MODIFIER', 'text', True),
        A('ENTITY-NUMBER', 'text'), A('ENTITY-PART', 'text'), A('ENTITY-PART-NUMBER', 'text'),
        A('GENERIC-SOURCE', 'text'), A('SOURCE-PART', 'text', True), A('SOURCE-PART-NUMBER', 'text', True),
        A('CONDITIONS', 'text', True), A('STANDARD-SYMBOL', 'text'), A('PRIVATE-SYMBOL', 'text')]),
    'MESSAGE': ('add_message', 6, [
        A('TYPE', 'ident', kw='message_type', py='_type'), A('TIME', 'dtimef'),
        *_nums('BOREHOLE-DRIFT', 'VERTICAL-DEPTH', 'RADIAL-DRIFT', 'ANGULAR-DRIFT'), A('TEXT', 'text', True)]),
    'NO-FORMAT': ('add_no_format', 8, [A('CONSUMER-NAME', 'ident'), A('DESCRIPTION', 'text')]),
    'PARAMETER': ('add_parameter', 5, [
        A('LONG-NAME', 'lntext'), A('DIMENSION', 'dim', True), A('AXIS', 'ref:AXIS', True),
        A('ZONES', 'ref:ZONE', True), A('VALUES', 'any', True)]),
    'PATH': ('add_path', 4, [
        A('FRAME-TYPE', 'ref:FRAME'), A('WELL-REFERENCE-POINT', 'ref:WELL-REFERENCE'),
        A('VALUE', 'ref:CHANNEL', True),
        *_nums('BOREHOLE-DEPTH', 'VERTICAL-DEPTH', 'RADIAL-DRIFT', 'ANGULAR-DRIFT', 'TIME', 'DEPTH-OFFSET',
               'MEASURE-POINT-OFFSET', 'TOOL-ZERO-OFFSET')]),
    'PROCESS': ('add_process', 5, [
        A('DESCRIPTION', 'text'), A('TRADEMARK-NAME', 'text'), A('VERSION', 'text'),
        A('PROPERTIES', 'enum:Property:hard', True), A('STATUS', 'enum:ProcessStatus:hard'),
        A('INPUT-CHANNELS', 'ref:CHANNEL', True), A('OUTPUT-CHANNELS', 'ref:CHANNEL', True),
        A('INPUT-COMPUTATIONS', 'ref:COMPUTATION', True), A('OUTPUT-COMPUTATIONS', 'ref:COMPUTATION', True),
        A('PARAMETERS', 'ref:PARAMETER', True), A('COMMENTS', 'text', True)]),
    'SPLICE': ('add_splice', 5, [
        A('OUTPUT-CHANNEL', 'ref:CHANNEL'), A('INPUT-CHANNELS', 'ref:CHANNEL', True), A('ZONES', 'ref:ZONE', True)]),
    'TOOL': ('add_tool', 5, [
        A('DESCRIPTION', 'text'), A('TRADEMARK-NAME', 'text'), A('GENERIC-NAME', 'text'),
        A('PARTS', 'ref:EQUIPMENT', True), A('STATUS', 'status'), A('CHANNELS', 'ref:CHANNEL', True),
        A('PARAMETERS', 'ref:PARAMETER', True)]),
    'WELL-REFERENCE': ('add_well_reference_point', 1, [
        A('PERMANENT-DATUM', 'text'), A('VERTICAL-ZERO', 'text'), A('PERMANENT-DATUM-ELEVATION', 'fdoubl'),
        A('ABOVE-PERMANENT-DATUM', 'fdoubl'), A('MAGNETIC-DECLINATION', 'fdoubl'),
        A('COORDINATE-1-NAME', 'text'), A('COORDINATE-1-VALUE', 'fdoubl'), A('COORDINATE-2-NAME', 'text'),
        A('COORDINATE-2-VALUE', 'fdoubl'), A('COORDINATE-3-NAME', 'text'), A('COORDINATE-3-VALUE', 'fdoubl')]),
    'ZONE': ('add_zone', 5, [
        A('DESCRIPTION', 'text'), A('DOMAIN', 'enum:ZoneDomain:hard'), A('MAXIMUM', 'dtimef'),
        A('MINIMUM', 'dtimef')]),
}

NESTED = {('CALIBRATION-MEASUREMENT', x) for x in ('MEASUREMENT', 'MAXIMUM-DEVIATION', 'STANDARD-DEVIATION',
          'REFERENCE', 'STANDARD', 'PLUS-TOLERANCE', 'MINUS-TOLERANCE')} | {
              ('COMPUTATION', 'VALUES'), ('PARAMETER', 'VALUES')}


def attr(ty, label):
    for a in TYPES[ty][2]:
        if a[0] == label:
            return a
    raise KeyError((ty, label))


UNITS_OK = {'num', 'fdoubl', 'uvari', 'unorm', 'int', 'enc', 'dtime', 'dtimef', 'any'}


def tla():
    import enums_table
    out = ['------------------------------- MODULE Schema -------------------------------',
           '(* Object types, their logical record types and attributes; enumerations.      *)',
           '(* Written by `python3 harness/schema.py` from the table in that file.          *)',
           'EXTENDS TLC, Sequences, Integers', '',
           'At(l, k, m, r, e) == [l |-> l, k |-> k, m |-> m, r |-> r, e |-> e]', '']
    out.append('SchemaOf ==')
    parts = []
    for ty, (_, code, attrs) in TYPES.items():
        lines = []
        for (label, _py, _kw, kind, multi) in attrs:
            r = e = ''
            k = kind
            if kind.startswith('ref:'):
                k, r = 'ref', kind[4:]
            elif kind.startswith('enum:'):
                _, e, soft = kind.split(':')
                k = 'enums' if soft == 'soft' else 'enumh'
            lines.append(f'        At("{label}", "{k}", {"TRUE" if multi else "FALSE"}, "{r}", "{e}")')
        parts.append(f'    "{ty}" :> [lr |-> {code}, at |-> <<\n' + ',\n'.join(lines) + ' >>]')
    out.append(' @@\n'.join(parts))
    out += ['', 'ObjTypes == DOMAIN SchemaOf',
            'AttrDef(ty, l) == LET s == SchemaOf[ty].at IN s[CHOOSE i \\in 1..Len(s) : s[i].l = l]',
            'LabelsOf(ty) == {SchemaOf[ty].at[i].l : i \\in 1..Len(SchemaOf[ty].at)}', '']
    def codes(names):
        return ' @@\n'.join(f'    "{n}" :> << {", ".join(str(ord(c)) for c in n)} >>' for n in names)

    out += ['\\* character codes', 'TypeCodes ==', codes([*TYPES, 'FILE-HEADER']), '']
    labels = {a[0]: 0 for _, _, attrs in TYPES.values() for a in attrs}
    out += ['LabelCodes ==', codes([*labels, 'SEQUENCE-NUMBER', 'ID']), '']
    out.append('EnumOf ==')
    parts = []
    for name, vals in enums_table.ENUMS.items():
        q = lambda v: '"' + v.replace('\\', '\\\\').replace('"', '\\"') + '"'
        txt, line = [], '       '
        for v in vals:
            item = ' ' + q(v) + ','
            if len(line) + len(item) > 115:
                txt.append(line)
                line = '       '
            line += item
        txt.append(line.rstrip(','))
        parts.append(f'    "{name}" :> {{\n' + '\n'.join(txt) + ' }')
    out.append(' @@\n'.join(parts))
    out += ['', '\\* character codes of the first two of each', 'EnumCodes ==',
            ' @@\n'.join(f'    "{name}" :> << ' + ', '.join('<< %s >>' % ', '.join(str(ord(c)) for c in v)
                                                            for v in list(vals)[:2]) + ' >>'
                         for name, vals in enums_table.ENUMS.items())]
    out += ['', '=' * 77, '']
    return '\n'.join(out)


if __name__ == '__main__':
    print(tla(), end='')
