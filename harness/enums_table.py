"""Values of the enumerations of the standard, as listed in the documentation of the library (utils/enums.py at the
pinned commit); a committed copy, so that a change of the tables in the code is noticed."""

ENUMS = {'Unit': ['A', 'K', 'cd', 'dAPI', 'dB', 'gAPI', 'kg', 'm', 'mol', 'nAPI', 'rad', 's', 'sr', 'Btu', 'C', 'D',
          'GPa', 'Gal', 'Hz', 'J', 'L', 'MHz', 'MPa', 'MeV', 'Mg', 'Mpsi', 'N', 'Oe', 'P', 'Pa', 'S', 'T',
          'V', 'W', 'Wb', 'a', 'acre', 'atm', 'b', 'bar', 'bbl', 'c', 'cP', 'cal', 'cm', 'cu', 'd', 'daN',
          'deg', 'degC', 'degF', 'dm', 'eV', 'fC', 'ft', 'g', 'gal', 'h', 'in', 'kHz', 'kPa', 'kV', 'keV',
          'kgf', 'km', 'lbf', 'lbm', 'mA', 'mC', 'mD', 'mGal', 'mL', 'mS', 'mT', 'mV', 'mW', 'mg', 'min',
          'mm', 'mohm', 'ms', 'nC', 'nW', 'ns', 'ohm', 'pC', 'pPa', 'ppdk', 'ppk', 'ppm', 'psi', 'pu', 't',
          'ton', 'uA', 'uC', 'uPa', 'uV', 'um', 'uohm', 'upsi', 'us'],
 'Property': ['AVERAGED', 'CALIBRATED', 'CHANGED-INDEX', 'COMPUTED', 'DEPTH-MATCHED', 'DERIVED', 'FILTERED',
              'HOLE-SIZE-CORRECTED', 'INCLINOMETRY-CORRECTD', 'LITHOLOGY-CORRECTED', 'LOCAL-COMPUTATION',
              'LOCALLY-DEFINED', 'MODELLED', 'MUDCAKE-CORRECTED', 'NORMALIZED', 'OVER-SAMPLED', 'PATCHED',
              'PRESSURE-CORRECTED', 'RE-SAMPLED', 'SALINITY-CORRECTED', 'SAMPLED-DOWNWARD', 'SAMPLED-UPWARD',
              'SPEED-CORRECTED', 'SPLICED', 'SQUARED', 'STACKED', 'STANDARD-DEVIATION', 'STANDOFF-CORRECTED',
              'TEMPERATURE-CORRECTED', 'UNDER-SAMPLED'],
 'CalibrationMeasurementPhase': ['AFTER', 'BEFORE', 'MASTER'],
 'EquipmentType': ['Adapter', 'Board', 'Bottom-Nose', 'Bridle', 'Cable', 'Calibrator', 'Cartridge',
                   'Centralizer', 'Chamber', 'Cushion', 'Depth-Device', 'Display', 'Drawer', 'Excentralizer',
                   'Explosive-Source', 'Flask', 'Geophone', 'Gun', 'Head', 'Housing', 'Jig', 'Joint',
                   'Nuclear-Detector', 'Packer', 'Pad', 'Pane', 'Positioning', 'Printer',
                   'Radioactive-Source', 'Shield', 'Simulator', 'Skid', 'Sonde', 'Spacer', 'Standoff',
                   'System', 'Tool', 'Tool-Module', 'Transducer', 'Vibration-Source'],
 'EquipmentLocation': ['Logging-System', 'Remote', 'Rig', 'Well'],
 'FrameIndexType': ['ANGULAR-DRIFT', 'BOREHOLE-DEPTH', 'NON-STANDARD', 'RADIAL-DRIFT', 'VERTICAL-DEPTH'],
 'ProcessStatus': ['COMPLETE', 'ABORTED', 'IN-PROGRESS'],
 'ZoneDomain': ['BOREHOLE-DEPTH', 'TIME', 'VERTICAL-DEPTH']}
