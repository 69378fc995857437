#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below."""
import json
import os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = 'include/boost/astronomy/'
IO = B + 'io/'
PROPS, CHECKS = [], []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, state=(), observe=()):
    assert len(title) <= 80, title
    PROPS.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
                  'anchors': {'files': files, 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                              'mechanism': [{'name': n, 'where': w} for n, w in mechanism], 'observe_at': list(observe), 'hook_needed': None}})
    CHECKS.append({'property': id, 'quick_cmd': 'python3 tools/check.py %s quick' % id, 'thorough_cmd': 'python3 tools/check.py %s thorough' % id,
                   'evidence_file': 'evidence/%s.json' % id, 'technique': technique, 'level': 'model_checking', 'level_note': note})


TRUST = ' Trusted: TLC, the hand-written driver that turns calls into observations, g++ and AddressSanitizer. Outside the bounds: nothing is claimed.'
MC = 'TLA+ specification explored by TLC; every bounded behaviour is replayed in the real code'
TV = '; traces recorded from randomised runs of the real code are validated by TLC against the specification'

prop('C01', 'A header card reads back what it was made from',
     'A card made from a keyword, a value (logical, integer, real, complex, string) and an optional comment is exactly 80 characters, and reading it back, from that card or '
     'from another card given its text, yields the same keyword, value and comment. This includes strings with quotes, slashes and inner blanks, empty strings and values that fill their field '
     '(leading and trailing blanks of strings are not kept). Reals come back to the six significant digits that are written.',
     ['inputs'], 'every keyword, every value of each type, every comment that fits', 'The tests make about a dozen cards with ordinary values; quoting, slashes, field widths and the comment boundary are not sampled.',
     [IO + 'card.hpp', IO + 'string_conversion_utility.hpp', IO + 'default_card_policy.hpp'],
     [('create_card / set_value and serialisation', IO + 'card.hpp'), ('extract_value, value_with_comment', IO + 'card.hpp')],
     MC + TV, 'Complete for the enumerated keywords, values, comments and their lengths around the field limits; sampled beyond.' + TRUST,
     [('raw_card', 'the 80 characters', IO + 'card.hpp')], ['value<T>()', 'keyword()', 'value_with_comment()', 'raw_card()'])
prop('C02', 'What is not a card is refused, and a refused call changes nothing',
     'A string is taken as a card exactly when it has 8 to 80 characters and either a value indicator (\'= \' in columns 9 and 10), a commentary keyword (COMMENT, HISTORY, END) or a blank keyword; any other is refused with an exception. '
     'A keyword of more than 8 characters, a value (with its comment) that does not fit behind it into 80 characters, and commentary text of more than 70 characters are refused likewise, and nothing that fits is refused. '
     'A call that is refused, or a new value that does not fit, leaves the card as it was; a value is never cut short in order to fit.',
     ['inputs', 'histories'], 'every string offered as a card, keyword, value or comment, whatever the card held before',
     'Tests try a few invalid cards; the boundary lengths and the state after a refusal are not covered.',
     [IO + 'card.hpp', IO + 'default_card_policy.hpp', B + 'exception/fits_exception.hpp'],
     [('card_policy validity checks', IO + 'default_card_policy.hpp'), ('length checks before the card is assembled', IO + 'card.hpp')],
     MC + TV, 'Complete for an alphabet of record forms and every length around the limits.' + TRUST)
prop('C03', 'What a card reads does not depend on the calls made before',
     'After any sequence of creations, changes, reads (as any type, successful or not) and copies, a card reads exactly what a fresh card with the same text reads. '
     'Reading as a type the text is not a value of fails and does not disturb later reads; copies are independent.',
     ['histories'], 'all sequences of calls on cards and copies of them', 'Each test makes one card and reads it once.',
     [IO + 'card.hpp'], [('value cache', IO + 'card.hpp')], MC + TV, 'All histories up to the bound over an alphabet of calls, longer ones sampled.' + TRUST,
     [('cached value', 'last value read, reused by later reads', IO + 'card.hpp')])
prop('C04', 'A header says what its cards say',
     'A header read from a file keeps every card in order up to END. The axes, the number of dimensions, BITPIX, the number of data elements, the HDU name and the value of every keyword are those of its cards; '
     'absent keywords and axes are reported as absent, and two headers are equal exactly when their cards are.',
     ['inputs'], 'every header of any number of cards, with any keywords in it', 'Tests read a few sample headers; counts at block boundaries, similar keywords and absent keys are not covered.',
     [IO + 'header.hpp', IO + 'bitpix.hpp'], [('read_header', IO + 'header.hpp'), ('key index', IO + 'header.hpp')],
     MC + TV, 'Every header of a library of several hundred files that puts card counts and data lengths at and around block boundaries, plus random headers.' + TRUST,
     [('cards, key_index', 'cards in order; keyword to position', IO + 'header.hpp')])
prop('C05', 'Every HDU of a file is found at its 2880-byte block',
     'Opening a file finds every HDU in order, each with its own header and its own data, for any header and data lengths (including ones that end exactly on a block boundary, and empty data). '
     'Locations, HDU count and lookup by index or name agree with the file, and reading only headers finds the same HDUs as reading everything. '
     'A reader given another file shows only that file.',
     ['inputs', 'histories'], 'every sequence of HDUs, every length, both reading modes, any earlier use of the reader',
     'The sample files have a handful of layouts, none of which has a header of 36 cards or data of exactly one block.',
     [IO + 'fits_reader.hpp', IO + 'fits_stream.hpp', IO + 'fits.hpp', IO + 'default_hdus.hpp'],
     [('read_entire_hdus / read_only_headers', IO + 'fits_reader.hpp'), ('find_unit_end, set_unit_end', IO + 'fits_stream.hpp'), ('control_block', IO + 'fits_reader.hpp')],
     MC + TV, 'Known findings (two extensions of one type in the listing; PCOUNT heaps) are left open in the specification and run separately.' + TRUST,
     [('hdu_list, control_block', 'what was read, and where', IO + 'fits_reader.hpp')])
prop('C06', 'A file written and read again is the same file',
     'Writing what was read gives a file of whole 2880-byte blocks with the same cards and the same data in the same order; reading it gives the same HDUs, and writing again gives the same bytes. '
     'Reading and writing leave other files and other readers alone. A file that could not be created or written in full is reported.',
     ['inputs', 'histories', 'fault_sequences'], 'every file of primary arrays and tables, every sequence of reads and writes, every place to write to',
     'Tests write one primary HDU and do not compare the bytes; they never fill a device or use a path that cannot be created.',
     [IO + 'fits_reader.hpp', IO + 'header.hpp', IO + 'primary_hdu.hpp', IO + 'binary_table.hpp', IO + 'ascii_table.hpp', IO + 'fits_stream.hpp'],
     [('write_to of the reader and of each HDU type', IO + 'fits_reader.hpp'), ('write_header', IO + 'header.hpp')],
     MC + TV, 'The bytes of written files are compared part by part with those the specification gives. Known finding: IMAGE extensions are dropped.' + TRUST)
prop('C27', 'A table edited in an open file is what the file written from it holds',
     'After a cell of a table of an open file is set (through the column view of the HDU found by index or by name), that reader shows the file with exactly that cell changed, and so does a file written from it and read again; '
     'every other byte stays. Other readers of the same file, the file itself until it is written over, and copies of the HDU list are not affected, and an edit of a copy does not reach the reader. '
     'set_data replaces all cells. convert_to gives an HDU as the type it has and refuses any other.',
     ['inputs', 'histories'], 'every table, cell and way of editing, and every sequence of reading, editing and writing with several readers',
     'Tests edit one column in memory and never write the result.',
     [IO + 'fits_reader.hpp', IO + 'fits.hpp', IO + 'column_data.hpp', IO + 'binary_table.hpp', IO + 'ascii_table.hpp'],
     [('convert_to', IO + 'fits.hpp'), ('column_view, Proxy', IO + 'column_data.hpp'), ('write_to', IO + 'fits_reader.hpp')],
     MC, 'Two columns a table, of bytes or characters; the values of other types are C08 to C11.' + TRUST)
prop('C07', 'A truncated or malformed file is an error, never invented data',
     'Opening a file that ends inside a header or (when data are read) inside its data, lacks a mandatory keyword, or has a mandatory keyword with an impossible value (a negative axis, more data than can be counted) fails with an exception. '
     'It never crashes, hangs, or returns HDUs with content that is not in the file.',
     ['inputs', 'fault_sequences'], 'every place a file can be cut at; every mandatory card dropped or replaced; every order of opening such files',
     'Only a missing file is tested.', [IO + 'fits_reader.hpp', IO + 'fits_stream.hpp', IO + 'header.hpp', IO + 'extension_hdu.hpp', IO + 'binary_table.hpp', IO + 'ascii_table.hpp'],
     [('short reads throw', IO + 'fits_stream.hpp'), ('keyword lookups throw', IO + 'header.hpp')], MC,
     'Cuts at every structurally distinct position (thorough: every 40 bytes); every card dropped, an alphabet of impossible values. Run under AddressSanitizer with a watchdog.' + TRUST)
prop('C08', 'Binary table cells are the values stored in the data',
     'Every cell of a binary table, of every column type and element count, read as its type is the big-endian value at that row and column of the data; writing the table gives back the data. '
     'A table whose columns do not fill its rows, whose data are too short, or whose cells no longer fit is refused, and a cell that has fewer bytes than its type is an error to read.',
     ['inputs', 'configurations'], 'every table layout, every value, every row and column', 'One sample table with a few columns is tested.',
     [IO + 'binary_table.hpp', IO + 'column_data.hpp', IO + 'binary_data_converter.hpp', IO + 'table_extension.hpp'],
     [('set_table_data, column_size', IO + 'binary_table.hpp'), ('deserialize_to', IO + 'binary_data_converter.hpp')],
     MC + TV, 'Every column type, counts 1..n, several columns and rows, extreme byte patterns.' + TRUST)
prop('C09', 'ASCII table cells are the values in their fields',
     'Every cell of an ASCII table, read as text, integer or real, is the value in the characters its column occupies, whatever the order, gaps and widths of the columns; writing the table puts every cell back into its field. '
     'A field outside of the row is refused.',
     ['inputs', 'configurations'], 'every layout, every value, every row and column', 'One sample table is tested; gaps, reordered columns and field widths are not.',
     [IO + 'ascii_table.hpp', IO + 'column_data.hpp', IO + 'string_conversion_utility.hpp'],
     [('set_table_data, write_to', IO + 'ascii_table.hpp')], MC + TV, 'Every format letter, widths, gaps, orders; reals compared as numbers.' + TRUST)
prop('C10', 'A table edit is seen everywhere it should be and nowhere else',
     'A value set through a column (by update, by element, from another element or by iteration) is what that element and that cell read from then on, through any view of that table, as any type, and what is written to a file; no other cell, no copy of the table and no other table changes. '
     'A table given new data shows only the new data.',
     ['histories'], 'all sequences of reads, edits, copies, assignments, data replacement and writes on several tables and views', 'Tests edit one cell once.',
     [IO + 'column_data.hpp', IO + 'binary_table.hpp', IO + 'ascii_table.hpp', IO + 'table_extension.hpp'],
     [('column_view caches and proxies', IO + 'column_data.hpp'), ('cached_columns', IO + 'binary_table.hpp')],
     MC + TV, 'All histories up to the bound, longer ones by simulation and random traces.' + TRUST, [('cached_columns, cell cache', 'views and decoded cells kept', IO + 'column_data.hpp')])
prop('C11', 'Numbers and their FITS bytes correspond one to one',
     'Encoding a logical, byte, character, 16- or 32-bit integer, single or double, complex, array descriptor, or vector of these gives its big-endian FITS bytes, and decoding those bytes (fewer are an error) gives the value back, bit for bit, '
     'including extremes, infinities, NaN and negative zero. Integers, reals and text written to ASCII fields read back likewise.',
     ['inputs'], 'every value of every supported type, every vector length', 'A few ordinary values are tested.',
     [IO + 'binary_data_converter.hpp', IO + 'string_conversion_utility.hpp'], [('serialize / deserialize_to', IO + 'binary_data_converter.hpp')],
     MC, 'Each power of two, neighbours of byte boundaries, all bytes, extremes and NaN for each type and shape.' + TRUST)
prop('C12', 'Image pixels and statistics are those of the stored array',
     'The pixel at a row and column of an image, for every BITPIX and shape, is the value stored there, whether the image is a primary array or an extension or a copy of one. '
     'Maximum, minimum, mean, median and standard deviation are those of the pixels, and computing them does not change the image; of no pixels they are 0. Writing the image gives back its bytes. Asking for pixels of another type than the image has is an error.',
     ['inputs', 'configurations'], 'every BITPIX, shape and pixel content', 'Statistics are tested for one or two arrays; several pixel types are not decoded in tests at all.',
     [IO + 'image.hpp', IO + 'primary_hdu.hpp', IO + 'image_extension.hpp', IO + 'bitpix.hpp'], [('read_image, operator()', IO + 'image.hpp'), ('max, min, mean, median, std_dev', IO + 'image.hpp')],
     MC, 'Shapes up to 64 pixels (thorough 400), six contents, all BITPIX; statistics compared with exact rationals.' + TRUST)
prop('C13', 'The byte stream is a cursor over the file',
     'Reads, writes, seeks and position queries on the file stream behave as one cursor over the bytes of the file: a read returns exactly the bytes at the cursor and advances it, a write replaces exactly those, '
     'unit ends are the next multiple of 2880 at or after the cursor. Queries change nothing, a read past the end is an error, and a missing file or uncreatable path is reported.',
     ['histories', 'inputs'], 'all sequences of calls on one stream over several files', 'Each call is tested once on one file.',
     [IO + 'fits_stream.hpp'], [('read, write, set_reading_pos, find_unit_end', IO + 'fits_stream.hpp')], MC + TV,
     'All histories of 3 (thorough 4) calls, walks of 14, random traces. After a failed call only reopening is specified.' + TRUST)
prop('C14', 'Columns are described as their header describes them',
     'Index, name, format, unit, scale, zero point, display format, dimensions and element count of every column are those its keywords give, with the defaults of the standard where a keyword is absent; '
     'looking up a column that does not exist fails.',
     ['inputs', 'configurations'], 'every combination of column keywords present or absent', 'One table with all keywords is tested.',
     [IO + 'column.hpp', IO + 'binary_table.hpp', IO + 'ascii_table.hpp', IO + 'table_extension.hpp'], [('populate_column_data', IO + 'binary_table.hpp')],
     MC + TV, 'Every subset of the optional keywords, several columns.' + TRUST)

TM = 'include/boost/astronomy/time/time_conversions.hpp'
CO = 'include/boost/astronomy/coordinate/'
OR = 'TLC enumerates the instants and values and computes what each call has to return, as exact terms; the harness runs the calls and the terms are compared with the results'
prop('C22', 'The Julian date of an instant is that of its civil day',
     'julian_date of an instant is the Julian date of the midnight its civil day begins with: the Gregorian calendar from 15 October 1582, the Julian calendar before. '
     'From one civil day to the next it grows by exactly one, through month ends, leap years, centuries and the change of calendar; the time of the day does not matter.',
     ['inputs', 'histories'], 'every date from 1400 to 9999 and every time of the day', 'Tests look at a few dates; a wrong leap rule or month offset shows on others.',
     [TM], [('julian_date', TM)], OR, 'Every day of 1400-9999 in both tiers; TLC checks that successive days differ by one. 5-14 October 1582 count as dates of the Julian calendar.' + TRUST)
prop('C23', 'Sidereal time follows the instant and the longitude',
     'GST of an instant is 6.697374558 + 2400.051336 T + 0.000025862 T^2 + 1.002737909 UT hours, reduced to 0 <= h < 24, with T the Julian centuries from J2000 to the midnight and UT the hours since, fractions of a second included. '
     'LST is GST plus (east) or minus (west) the longitude at 15 degrees an hour, reduced to the same range.',
     ['inputs', 'histories'], 'every instant from 1400 to 9999 and every longitude in either direction', 'Tests sample three instants and one longitude.',
     [TM], [('GST, LST', TM)], OR, 'Key dates, times and longitudes plus random clocks, to 1e-8 hours.' + TRUST)
prop('C24', 'A decimal hour and its hours, minutes and seconds are one value',
     'A decimal_hour made from a number or from hours, minutes and seconds has that value; its hours and minutes are whole numbers, its minutes and seconds below 60, together they make up the value, and they are what is printed.',
     ['inputs'], 'every number of hours, every triple of hours, minutes and seconds', 'Tests sample two values.', ['include/boost/astronomy/time/parser.hpp'],
     [('decimal_hour', 'include/boost/astronomy/time/parser.hpp')], OR, 'Whole minutes and hours may come out as 59.9999... seconds where a double cannot hold them.' + TRUST)
prop('C25', 'The obliquity of the ecliptic follows the date',
     'obliquity_of_ecliptic of a date is 23.439292 degrees less (46.815 T + 0.0006 T^2 - 0.00181 T^3) arc seconds, T in Julian centuries from J2000, in radians.',
     ['inputs'], 'every Gregorian date from 1400 to 9999', 'Tests sample one or two dates.', [CO + 'utility/utility.hpp'], [('obliquity_of_ecliptic', CO + 'utility/utility.hpp')], OR,
     'Key dates and random ones, to 1e-10. ' + TRUST)
prop('C26', 'Units of length convert consistently',
     'A length in metres, centimetres, astronomical units, parsecs, light seconds, minutes, hours, days or years expressed in any other of these units is the same length, by the defined number of metres in each (c = 299792458 m/s, a year of 365.25 days, au = 149597870691 m). '
     'Singular, plural and both spellings name the same unit.',
     ['inputs', 'configurations'], 'every pair of units and every value', 'Tests do not convert between most pairs.', ['include/boost/astronomy/units/length.hpp'], [('units of length', 'include/boost/astronomy/units/length.hpp')], OR,
     'All 81 pairs, random values, to 1e-12.' + TRUST)

UT = CO + 'utility/utility.hpp'
prop('C19', 'Conversions between celestial systems are the documented rotations',
     'column_vector of two angles is the unit vector in that direction, and extract_coordinates gives those angles back (first within -180..180 degrees, second within -90..90), at the poles and across the seam too. '
     'Hour angle/declination to and from horizon (by latitude) and to and from right ascension (by sidereal time), ecliptic to and from right ascension (by obliquity), and galactic to and from right ascension '
     'are rotations or reflections that keep lengths; applying a conversion and the one back gives the position one started with. Angles may be in degrees or radians.',
     ['inputs', 'histories', 'configurations'], 'every direction, every angle, every chain of conversions, angles in either unit, matrices in either precision',
     'Tests convert a handful of positions once.', [UT], [('column_vector, extract_coordinates', UT), ('ha_dec_horizon, ha_dec_ra_dec, ecliptic_to_ra_dec, ra_dec_to_ecliptic, galactic_to_ra_dec, ra_dec_to_galactic', UT)], OR,
     'Inverse and length laws are checked by TLC in integers; every pair of conversions on key directions and angles, random chains of up to 3. The galactic matrix is taken to its seven digits.' + TRUST)
CS = CO + 'coord_sys/'
prop('C21', 'A celestial coordinate keeps each of its angles, in any unit',
     'A horizon, hour angle, right ascension, ecliptic or galactic coordinate, however it was made (constructor, make function, setters) and whatever the units of its two angles, returns each angle as it was last set, alone, as a tuple, '
     'in radians as a point, and printed with its name and unit. Setting one angle leaves the other alone; copies are independent.',
     ['inputs', 'histories', 'configurations'], 'every kind, unit combination, precision, value and sequence of calls', 'Tests set each value once, mostly with equal units.',
     [CS + f for f in ('horizon_coord.hpp', 'equatorial_ha_coord.hpp', 'equatorial_ra_coord.hpp', 'ecliptic_coord.hpp', 'galactic_coord.hpp', 'coord_sys.hpp')],
     [('setters, getters, make functions, operator<<', CS + 'horizon_coord.hpp')], OR, 'All kinds, six unit and precision combinations, histories of copies and edits; random histories up to 14 calls.' + TRUST)

REPS = [CO + 'rep/' + f for f in ('base_representation.hpp', 'cartesian_representation.hpp', 'spherical_representation.hpp', 'spherical_equatorial_representation.hpp')]
DIFS = [CO + 'diff/' + f for f in ('base_differential.hpp', 'cartesian_differential.hpp', 'spherical_differential.hpp', 'spherical_equatorial_differential.hpp', 'spherical_coslat_differential.hpp')]
prop('C16', 'A position stays where it is in every representation and unit',
     'A Cartesian, spherical or spherical equatorial representation returns every component as it was last set (constructor, make function, setters), in its own unit, alone, as a tuple, as a point and printed with name and units. '
     'Converting it to any other representation or units, by constructor, make function or to_representation with the same unit of length, or making it from a Boost.Geometry point in any system, gives the same position in space '
     '(also at the poles, on the axes and for the zero vector), with the angles of a converted position in their principal range. A copy is independent and equal to its source; equal components of one type compare equal, different positions do not.',
     ['inputs', 'histories', 'configurations'], 'every pair of representations and units, every position including poles and origin, every sequence of calls', 'Tests convert a few generic positions between a few types.',
     REPS + [CO + 'io/io.hpp'], [('conversion constructors and make functions', CO + 'rep/spherical_representation.hpp'), ('to_representation, operator==', CO + 'rep/base_representation.hpp')], OR,
     'Nine types (three kinds, units m, cm, km, deg, rad, two precisions), every pair and way of conversion there and back over positions with poles, axes and wrapped angles; points of five systems; random histories up to 16 calls. '
     'Directions near an axis are only compared to the root of the precision, as Boost.Geometry computes them by acos and asin.' + TRUST)
prop('C17', 'Vector algebra is that of three-dimensional space, in any mix of types and units',
     'For positions in any two representations and units: dot and cross are the Euclidean products of the positions, in the product of their units; sum, mean and operator+ are the vector sum and midpoint, returned in the representation and '
     'units of the first; magnitude is the length; unit_vector has the same direction and length one. Operands are not changed.',
     ['inputs', 'configurations'], 'every pair of representations, units and vectors', 'Tests use a few vectors, mostly with equal units.',
     [CO + 'arithmetic.hpp'] + REPS, [('cross, dot, magnitude, unit_vector, sum, mean', CO + 'arithmetic.hpp'), ('operator+', CO + 'rep/cartesian_representation.hpp')], OR,
     'Laws of the specified algebra (antisymmetry, orthogonality, Lagrange identity, bilinearity) checked by TLC on integer vectors; every operation on every pair of nine types; random chains with up to four sums.' + TRUST)
prop('C18', 'A motion stays the same motion in every differential and unit',
     'A Cartesian, spherical, spherical equatorial or spherical-coslat differential returns every component as it was last set, in its own unit, and keeps the vector it stands for when converted to any other differential or units (the coslat kind '
     'holding the second angle times the cosine of the first). operator+ is the vector sum in the type of the first operand, multiplication by a time scales the vector, magnitude is its length and unit_vector its direction in the type asked for; '
     'copies are independent and equal to their source.',
     ['inputs', 'histories', 'configurations'], 'every pair of differentials and units, every motion and sequence of calls', 'Tests convert a few generic motions and never go through the coslat kind and back.',
     DIFS, [('conversions, operator+ and operator*', CO + 'diff/spherical_coslat_differential.hpp'), ('magnitude, unit_vector, operator==', CO + 'diff/base_differential.hpp')], OR,
     'Twelve types; every pair and way of conversion there and back; sums of every pair; random histories up to 16 calls. Not specified: coslat from a Boost.Geometry point, magnitude and unit_vector of mixed units or of the coslat kind, '
     'the second coslat angle where the cosine vanishes.' + TRUST)


prop('C20', 'A frame keeps position, motion and parameters apart, and measures true angles',
     'An alt-az, galactic, supergalactic, ICRS, CIRS, heliocentric or geocentric frame, however it was made (components, another representation, with or without a differential, setters, inside a sky_point), gives back the position, motion, '
     'observation time, location, pressure, temperature and humidity it was last given, in the units given; setting one of them leaves the others alone, and copies and sky_points are independent of their source. '
     'angular separation of two positions is the true great-circle angle, symmetric, zero for a position with itself and within 0 to 180 degrees, and frames are equivalent exactly when they are the same frame in the same units.',
     ['inputs', 'histories', 'configurations'], 'every frame, unit combination, precision, pair of positions and sequence of calls', 'Tests make one frame of a kind and read it back.',
     [CS + f for f in ('alt_az.hpp', 'galactic.hpp', 'supergalactic.hpp', 'heliocentric.hpp', 'geocentric.hpp')] + [CO + f for f in ('sky_point.hpp', 'ref_frame/base_frame.hpp', 'ref_frame/base_equatorial_frame.hpp', 'ref_frame/icrs.hpp', 'ref_frame/cirs.hpp')],
     [('separation, is_equivalent_frame', CO + 'ref_frame/base_frame.hpp'), ('constructors and parameters', CS + 'alt_az.hpp')], OR,
     'Every frame, unit combination and way to make it; every pair of edits around a copy; angles over a grid with poles, antipodes and tiny separations; random histories up to 16 calls.' + TRUST)

prop('C28', 'Objects that are not shared can be used independently and at the same time',
     'Cards, headers, files opened, streams, tables, images, coordinates, frames, vectors and times that a program has made separately do not influence each other: whatever is done with one, what is seen of another is what '
     'would be seen without it, in one thread whose operations on them alternate in any way, and in several threads that each use their own objects and files, with no lock, in any interleaving. '
     'The library keeps no modifiable state outside the objects, so such threads have no data race. Images, coordinates, frames and vectors that are no longer changed may also be looked at by several threads at once '
     '(cards, headers and tables remember values they were asked for, and are not covered while shared).',
     ['schedules', 'histories'], 'every interleaving of the operations of several threads (or of one thread) on separate objects',
     'The tests run in one thread and use one object at a time.',
     [IO + 'card.hpp', IO + 'header.hpp', IO + 'fits_reader.hpp', IO + 'fits_stream.hpp', IO + 'column_data.hpp', IO + 'image.hpp', IO + 'binary_data_converter.hpp', B + 'coordinate/arithmetic.hpp',
      B + 'coordinate/ref_frame/base_frame.hpp', B + 'time/time_conversions.hpp'],
     [('state is kept in the objects only; functions use locals', IO + 'binary_data_converter.hpp'), ('per-object caches', IO + 'card.hpp')],
     'TLA+ specification of processes, schedules and happens-before (Par) explored by TLC; every schedule is replayed in the real code with histories of the other specifications, in one thread, in threads that take turns and in free threads under ThreadSanitizer',
     'All schedules of 2 processes with 4 steps and 3 with 2 (a step is a part of a history); histories drawn from the other specifications so that every kind of operation occurs. A history that fails alone is another property. '
     'Trusted besides: ThreadSanitizer, whose detection does not depend on the interleaving met.' + TRUST)


with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps(p) + '\n')
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': CHECKS, 'not_applicable': [],
               'notes': 'TLA+ with TLC. No hooks in /repo: the drivers in harness/ use the public interface. See DESIGN.md.'}, f, indent=1)
    f.write('\n')
