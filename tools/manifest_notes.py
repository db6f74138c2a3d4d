over['claimed'] = ['H01', 'H02', 'H03', 'H04', 'H05', 'H06', 'H07', 'M01', 'M02', 'M03', 'M04', 'M05', 'M06', 'M07', 'E01', 'E02', 'R01', 'R02', 'R03', 'R04', 'R05'] + ['S%02d' % i for i in range(1, 15)]
over['S11'] = ('property-based testing (proptest) over generated Rust programs, compiled and run, against the calls their text specifies',
               'Exploration of generated trait declarations and of the library\'s nine protocol traits; a hand-written expansion decides whether a program that does not compile is valid.')
