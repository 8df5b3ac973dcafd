"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing it: python3 tools/gen.py)."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = 'pythonbmp/'
L = P + 'BITMAPlib.py'


def p(id, title, statement, over, text, why, files, mech, claim=True, note='', theorems=None, reason=''):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]),
                claim=claim, note=note, theorems=theorems, reason=reason)


PROPS = [
 p('C01', 'New bitmaps are well-formed for every size and depth',
   'For every width and height of at least 1 and every supported depth (1, 4, 8, 24 bits), creating a bitmap gives a byte array with a valid file header: magic, file size, header size, width, height and depth fields agree with the request and with the actual length, which is header plus height times the row length padded to four bytes. '
   'The default palette is the documented one and every pixel starts as colour 0. The reported size, bottom-right corner, centre and colour count of any bitmap agree with its header.',
   ['inputs'], 'all widths and heights up to the format limit, all four depths',
   'tests create a handful of sizes; row padding and the multi-byte size fields go wrong only at particular remainders and magnitudes',
   [L, P + 'inttools.py', P + 'bmppal.py'], [('row padding', L + ':_xbytes'), ('header writer', L + ':_bmmeta/_setmeta'), ('constructor', L + ':newBMP'), ('accessors', L + ':getmaxx..centercoord')],
   note='newBMP, row padding, header writer and accessors proved for all sizes and depths; the palette bytes are compared exactly per depth; bounded oracle beside it'),
 p('C02', 'Writing a pixel changes that pixel only; reading gives it back',
   'At every depth, setting the pixel at a coordinate inside the image makes reading it return that colour and leaves every other pixel, the row padding, the header and the palette as they were. '
   'Setting a pixel outside the image changes nothing; reading there gives the documented sentinel (-1, or an empty list for the RGB form). The vector, RGB and exchange-two-pixels forms agree with the plain ones.',
   ['inputs'], 'all well-formed bitmaps of any size and depth, all integer coordinates, all colours valid for the depth',
   'tests sample a few coordinates; a packing error (nibble or bit order, row offset, clipping) shows only for particular column residues and borders',
   [L], [('packed write', L + ':plotxybit'), ('packed read', L + ':getxybit'), ('offset', L + ':_BMoffset'), ('RGB forms', L + ':plotRGBxybit/getRGBxybit')],
   note='every single-pixel reader and writer proved at all four depths for all sizes and coordinates'),
 p('C03', 'Drawing never damages the header, the palette or the file size',
   'Drawing any supported shape, grid, pattern or text with arbitrary integer coordinates and sizes, on or off the canvas, with a colour valid for the depth, raises nothing and leaves the header, the palette and the length of the bitmap unchanged. '
   'Pixels outside the shape\'s own extent (the box of its centre and radius, of its end points or vertices, widened by the pen) keep their value; radii and half axes are at least 0, and lines first move their end points to the nearest image coordinate. '
   'At 4 bits a horizontal run may take in the other pixel of a byte it shares (recorded finding of C04).',
   ['inputs', 'programs'], 'all bitmaps, all integer positions and extents (also negative, far outside, degenerate), every drawing call',
   'an off-canvas write lands in the header or a neighbouring row only for particular clipped positions the tests do not use',
   [L, P + 'primitives2D.py'], [('clipping', L + ':plotxybit/horiline/vertline/filledrect/circle/filledcircle'), ('rasterisers', P + 'primitives2D.py')]),
 p('C04', 'Straight lines and rectangles cover exactly their pixels',
   'A horizontal or vertical line colours exactly the pixels between its two ends (ends included, in either order) that lie in the image; a rectangle outline colours exactly the boundary of the box spanned by its corners and a filled rectangle inside the image exactly the whole box. '
   'A one-pixel line between any two points of the image (points outside, also corners of an outline, are first moved to the nearest image coordinate) contains both end points, is 8-connected, stays within one pixel of the ideal line and inside the box of its end points. Polylines and polygons are the union of their edges.',
   ['inputs'], 'all bitmaps of every depth, all integer end points (in, partly in or out of the image), all valid colours',
   'tests compare a few drawings at 8 or 24 bits against stored images; slopes, orderings, odd columns and clipping are unsampled',
   [L, P + 'primitives2D.py'], [('line walk', P + 'primitives2D.py:iterline'), ('spans', L + ':horiline/vertline'), ('rectangles', L + ':rectangle/filledrect')],
   note='iterline, line, horiline, vertline, rectangle and filledrect proved for all sizes, coordinates and depths (4-bit spans: whole bytes; the rest is a known finding); polygons as unions of lines by the bounded oracle'),
 p('C05', 'Saving and loading reproduces the bitmap byte for byte',
   'Saving a bitmap and loading the file gives back the identical byte array, and the file holds exactly those bytes. '
   'Loading a file that is missing or does not start with the bitmap signature does not return an image, and saving replaces the previous content completely.',
   ['inputs', 'histories'], 'all bitmaps of all depths and sizes, any earlier file content',
   'tests save and load stored images once; size-dependent and overwrite behaviour is not explored',
   [L, P + 'fileutils.py'], [('writer', L + ':saveBMP'), ('reader', L + ':loadBMP'), ('link check', P + 'fileutils.py:checklink')]),
 p('C06', 'Vertical and horizontal flips and mirrors move every pixel exactly',
   'Flipping an image or a region top-to-bottom or left-to-right puts every pixel at its mirrored position, is its own inverse, and leaves everything outside the region, the header and the palette unchanged. '
   'Mirroring a half (or quarter) onto the other makes the region symmetric while the source half keeps its pixels.',
   ['inputs'], 'all bitmaps; whole images and in-bounds regions (at 1 and 4 bits regions whose edges fall on byte boundaries), every mirror direction, odd and even sizes',
   'tests compare single images; odd sizes, one-pixel regions and packed depths are not sampled',
   [L, P + 'bufferflip.py'], [('region row exchange', L + ':verttransregion/horizontalbulkswap'), ('row reversal', P + 'bufferflip.py:flipbuf'), ('mirrors', L + ':mirror*inregion')]),
 p('C07', 'Crop, copy and paste move exactly the selected pixels',
   'Cropping gives an image of the size of the selection with exactly its pixels and the palette of the source. Pasting a copied selection at a position that fits reproduces exactly the copied pixels there and changes nothing else; copying changes nothing. '
   'A selection of the right depth can be turned into a bitmap with the same pixels.',
   ['inputs', 'histories'], 'all bitmaps, all in-bounds regions (byte-aligned at 1 and 4 bits for copy and paste), all fitting targets',
   'tests use one region of one picture',
   [L], [('copy', L + ':copyrect/itercopyrect'), ('paste', L + ':pasterect'), ('crop', L + ':crop/itergetcolorfromrectregion')]),
 p('C08', 'Palette operations change exactly the palette entries they name',
   'Setting palette entries makes reading them return the given colours and leaves every other entry, the header and the pixels unchanged; copying a palette makes both palettes equal; replacing the whole palette stores the given list. '
   'Rotating a palette permutes its colours cyclically, and the test for the default palette is true exactly when all entries are the defaults.',
   ['inputs', 'histories'], 'all palette depths, all indices, all colours, all rotation amounts',
   'tests set a few entries',
   [L, P + 'bmppal.py', P + 'colors.py'], [('entry access', L + ':setRGBpal/getRGBpal/getallRGBpal'), ('bulk', L + ':setbmppal/copyRGBpal'), ('rotation', L + ':palshift'), ('default test', L + ':isdefaultpal')]),
 p('C09', 'Pixel iteration visits every pixel exactly once with its colour',
   'Iterating over the colours of an image or of a region yields every pixel of it exactly once, with its coordinates and its stored colour. '
   'The colour histogram counts every pixel exactly once, and region searches by colour return exactly the pixels of that colour.',
   ['inputs'], 'all bitmaps of all depths and widths including widths that leave padding',
   'tests iterate over widths without remainder',
   [L], [('iterators', L + ':iterimagecolor/iterimageRGB/itergetcolorfromrectregion'), ('histogram', L + ':colorhistogram')],
   note='image and region iterators proved at every depth, the RGB iterator at 24 bits; histogram, searches and the RGB iterator below 24 bits by the bounded oracle'),
 p('C10', 'Inverting the bits is exact and undoes itself',
   'Inverting an image replaces every pixel colour number by its bitwise complement at that depth and changes neither header nor palette; inverting a region does the same inside it and nothing outside. Inverting twice restores the image.',
   ['inputs', 'histories'], 'all bitmaps of all depths; in-bounds regions (byte-aligned at 1 and 4 bits)',
   'tests invert one image once',
   [L, P + 'colors.py'], [('buffer', P + 'colors.py:invertbitsinbuffer'), ('image', L + ':invertimagebits'), ('region', L + ':invertregion')]),
 p('C11', 'Enlarging and upgrading keep the appearance of the image',
   'Enlarging an image N times gives a well-formed image N times as wide and high in which every source pixel is an N by N block of its colour, with the same palette. '
   'Upgrading to 24 bits gives an image of the same size showing the same RGB colour at every pixel. The row buffer helpers used for this (packing, unpacking, splitting) keep every element in order.',
   ['inputs'], 'all bitmaps of all depths and sizes, all factors of at least 1',
   'tests use one image and one factor',
   [L, P + 'bufresize.py', P + 'buffersplit.py'], [('enlarge', L + ':resizeNtimesbigger'), ('row enlarge', P + 'bufresize.py'), ('upgrade', L + ':upgradeto24bitimage'), ('split', P + 'buffersplit.py')]),
 p('C12', 'Colour conversions are exact and stay in range',
   'Converting between packed colour numbers, RGB triples and BGR buffers loses nothing and round-trips for every 24-bit colour. '
   'Matching an RGB colour to a palette gives the index of an entry at minimal distance, exact entries matching themselves. Monochrome, gamma, brightness, threshold and channel-filter functions give channels in 0..255 and follow their documented formulas.',
   ['inputs'], 'all 24-bit colours, all palettes, all documented parameter values',
   'tests check a few colours out of 2^24 and a few parameters',
   [P + 'colors.py'], [('conversions', P + 'colors.py:int2RGB/RGB2int'), ('matching', P + 'colors.py:matchRGBtopal'), ('adjustments', P + 'colors.py:gammacorrect/brightnessadjust/thresholdadjust/colorfilter')]),
 p('C13', 'Operations refuse unsupported depths and regions out of bounds',
   'An operation that is documented for certain depths, or for regions or circles entirely inside the image, leaves the image untouched when called with another depth or with a region or circle that is not entirely inside, and runs when the condition holds. '
   'The inside tests themselves are exact for every integer argument.',
   ['inputs'], 'all bitmaps, all integer regions and circles',
   'tests call operations with valid arguments',
   [P + 'paramchecks.py', P + 'primitives2D.py', L], [('guards', P + 'paramchecks.py'), ('inside tests', P + 'primitives2D.py:isinrectbnd/entirecircleisinboundary; ' + L + ':isinBMPrectbnd')]),
 p('C14', 'Circles and ellipses are drawn where they should be',
   'A circle outline of radius r has the four-fold symmetry of the circle about its centre, contains its four extreme points, never leaves its bounding box, and every outline pixel is within one pixel of distance r; a filled circle is the filled form of that outline with no gap. '
   'The same holds for axis-aligned ellipses with the ellipse in place of the circle. Both are clipped, not moved, by the image edge.',
   ['inputs'], 'all centres, all radii of at least 0, all depths',
   'tests compare a few stored drawings',
   [P + 'primitives2D.py', L], [('octant walk', P + 'primitives2D.py:itercirclepart'), ('ellipse walk', P + 'primitives2D.py:iterellipsepart'), ('drawing', L + ':circle/filledcircle/ellipse/filledellipse')]),
 p('C15', 'Text is drawn glyph by glyph at the right place',
   'Drawing a string colours exactly the pixels of each glyph of the chosen font, enlarged by the scale and placed one after the other with the given spacing (0 counts as 1), clipped to the image (an enlarged cell that does not '
   'lie wholly inside is not drawn), and nothing else. The upside-down, sideways, reversed, italic and dotted forms show the same glyphs turned, mirrored, slanted or dotted; a newline starts a new row, a tab skips four places. Of several colours the rows of a glyph take one after the other, beginning again after the last (not in the reversed upright form, which takes one colour). '
   'The forms that write a file draw the text on a new image just large enough for it.',
   ['inputs'], 'all strings over the font\'s characters, all positions and scales, all depths',
   'tests draw a few strings',
   [L, P + 'fonts.py'], [('glyph', L + ':plot8bitpattern'), ('string', L + ':plotstring')]),
 p('C16', 'Fractal images hold the escape count of every point',
   'The escape-count functions give the number of orbit steps before the orbit leaves the bound of its family, and the iteration limit if it does not within that many steps; the closed-form ones give their formula modulo the limit. '
   'The fractal iterators visit every pixel of the requested region (its right-most column and last row excepted) exactly once and map it linearly into the requested domain, the left and top edge to the lower bounds. '
   'Drawing puts the colour derived from that count at every one of those pixels that lies in the image (24 bits: brightness (255 - count) * 20 mod 256 mixed by the colour factors; 1 bit, and 4 or 8 bits with three factors: the count modulo the colours; otherwise the last colour minus the count, modulo the colours) and changes nothing else; the file forms save exactly that image.',
   ['inputs'], 'all points, parameters, iteration limits, domains, regions (also partly outside the image) and depths',
   'tests compare one stored image per fractal at one depth, with one region, domain and limit',
   [P + 'fractals.py', L], [('escape functions', P + 'fractals.py'), ('iterators', P + 'fractals.py:itermultifractal*'), ('drawing', L + ':plotmultifractal')]),
 p('C17', 'Pie chart data is proportional',
   'Pie chart data gives every entry its exact share of the circle: the angles are contiguous, in the order given, proportional to the values and add up to the full circle (360 degrees, up to floating-point rounding); every sector carries its colour, value and percentage. The large entry reported holds at least half of the total, and is reported whenever there is one; the data itself is not changed.',
   ['inputs'], 'all lists of positive values',
   'tests draw one chart',
   [P + 'charts.py'], [('data', P + 'charts.py:genpiechartdata/getdatalisttotal')]),
 p('C18', 'Integer fields are stored and read back little-endian without loss',
   'Writing an unsigned integer of a given byte width into a buffer at an offset and reading it back returns it for every value that fits, changes no other byte, and stores it little-endian; converting an integer to a buffer and back does the same.',
   ['inputs'], 'all widths, offsets, values in range and buffers',
   'tests write a few small values',
   [P + 'inttools.py'], [('writer', P + 'inttools.py:writeint'), ('reader', P + 'inttools.py:readint'), ('buffers', P + 'inttools.py:int2buf/buf2int')]),
 p('C19', 'Pixel filters change exactly their region by their formula',
   'Applying a colour filter, monochrome filter, gamma, brightness or threshold adjustment to an image or to a region of it replaces every pixel inside by the formula of that adjustment applied to its colour and leaves all pixels outside, the header and the palette unchanged.',
   ['inputs'], 'all 24-bit images (palette images: all palette entries where the operation supports them), all in-bounds regions, all parameter values',
   'tests compare one stored image per filter',
   [L, P + 'colors.py'], [('region filters', L + ':*to24bitregion'), ('buffer filters', P + 'colors.py:*BGRbuf')]),
 p('C20', 'File-to-file operations equal load, operate, save',
   'Every operation offered in a file-to-file form writes exactly the image that loading the source, applying the in-memory operation and saving would give, and leaves the source file unchanged. If the source is missing nothing is written.',
   ['inputs', 'histories'], 'all source images, all valid parameters, every file-to-file form',
   'tests run a few forms on one picture',
   [L, P + 'fileutils.py'], [('wrappers', L + ':_use*sv and *2file')]),
 p('C21', 'Vector and number helpers compute their mathematical definition',
   'The vector, statistics, interpolation and clamping helpers return the value of their mathematical definition: component-wise vector sums, differences and products; dot and cross products; minimum, maximum and clamping; linear interpolation and its inverse; mean and variance; points mirrored about a centre.',
   ['inputs'], 'all numbers and vectors of any length',
   'tests check a few values',
   [P + 'mathlib.py'], [('helpers', P + 'mathlib.py')]),
 p('C22', 'Transposing exchanges rows and columns',
   'Exchanging the x and y axes of an image gives a well-formed image of exchanged width and height, with the same palette, in which every source pixel (x, y) of a W by H image lies at its position reflected in a diagonal: at (y, x) at 1 and 4 bits, at (H-1-y, W-1-x) at 8 and 24 bits; doing it twice gives back the source pixels.',
   ['inputs'], 'all bitmaps of all depths and sizes',
   'tests transpose one image',
   [L], [('transpose', L + ':flipXY')],
   note='flipXY proved at every depth for all sizes (at 1 and 4 bits against the contract of iterimagecolor proved in C09); bounded oracle beside it'),
 p('C23', 'Operations on a circular region leave everything outside the circle alone',
   'An operation on a circular region entirely inside the image (copy and paste, flip, mirror, invert, filter, gradient, magnify, pixelize, erase lines, outline) changes no pixel outside the rows and chords of that circle (at 1 and 4 bits chords are widened to whole bytes), nor the header, the palette or the length of the file; flips of the region are their own inverse, mirrors keep the source half and reflect it, inversion and the colour filters treat the chords pixel by pixel. '
   'The walk along columns visits every column of the disc exactly once.',
   ['inputs'], 'all images of the supported depths, all circles entirely inside',
   'tests apply each once with the circle in the middle of one picture',
   [L, P + 'primitives2D.py'], [('chord walk', P + 'primitives2D.py:itercirclepart'), ('operations', L + ':*circregion')],
   note='row-wise operations (vertical flip, mirrors, inversion, outline, filters, vertical gradient) and the column walk proved for all images, circles and depths; copy, column-wise operations, magnify, pixelize bounded'),
 p('C24', 'Vertices of curves and solids lie on the shape they name',
   'The generators of vertices return points of the shape they name. Regular polygons have as many vertices as sides, at the radius from the centre and at equal angles; rectangles their four corners; the bounding corners enclose exactly the points. '
   'Sampled curves (Lissajous, epicycloid, hypotrochoid, spirograph, involute of a circle, gear, heart, superellipse, Cornu spiral) yield, for every step of the parameter, a lattice point within one pixel of the curve on each axis. '
   'Line segments, Bezier curves and B-splines are chains of lattice points without gaps inside the box of their control points; a Bezier curve goes from the first control point to the last. '
   'Vertices of spheres, cylinders and cones lie on their surface around the given centre; the faces of the tabulated solids and of spheres close up (every edge belongs to exactly two faces, in opposite directions); '
   'a surface plot has one face for every cell of its grid. Turning a solid keeps the distance of any two vertices, and the picture is its central projection. '
   'The lists of points of the attractors (Ikeda, N, Gumowski-Mira, Peter de Jong, Clifford, fractal dream, Hopalong, symmetric icon, Duffing) are the orbit of the named map from its start, as long as asked for; '
   'a Koch curve replaces every segment by the four of the Koch construction, a Hilbert curve visits every cell once, going from cell to neighbour.',
   ['inputs'], 'all centres, radii, steps and parameters, all lists of points, orbits of any length',
   'the stored images do not use most of the generators; an error in a parameter shows only off the origin or for steps that do not divide the circle',
   [P + 'primitives2D.py', P + 'solids3D.py', P + 'fractals.py'], [('curves', P + 'primitives2D.py:iter*curve'), ('orbits', P + 'fractals.py:*attractorlist'), ('solids', P + 'solids3D.py:*vertandsurface'), ('projection', P + 'solids3D.py:perspective')],
   note='seven curves, six attractors, the Koch construction, regular polygons, rectangles, cylinders, cones, the perspective and the tables of faces proved over the reals for all parameters; Koch curves of order 3 up, Hilbert curves, the other three attractors, Bezier, B-spline, superellipse, Cornu spiral, spheres, surface plots and floats by the bounded oracle'),
]

NOTES = {
    'C16': 'escape counts and iterators proved over the reals (elementary functions uninterpreted), drawing and file forms proved at every depth; floats and Newton drawing by the bounded oracle; IFS not covered (attractors and recursive curves: C24)',
    'C20': 'every file form proved at the depths it supports and one it does not, with the source there and missing, against a file model and one contract per in-memory operation (proved or checked under its own property)',
    'C17': 'both functions proved for lists of any length over the reals (the induction on the sums as separate lemmas); floats by the bounded oracle',
    'C15': 'eight glyph forms at every depth in one or several colours, nine dotted forms, all 20 string functions, 13 file forms and the font lookup proved for all patterns, scales, positions and strings; concrete renderer as bounded oracle beside it; scaled glyphs at 4 bits bounded only',
    'C03': 'frame contracts of 72 drawing calls at every depth proved from their bodies (line, circle, ellipse and point primitives down to the bytes), for all sizes and coordinates; text and 3D solids by the bounded oracle',
    'C05': 'save then load, missing and foreign files proved for all bitmaps against a model of the file system calls; bounded oracle on real files beside it',
    'C06': 'row-wise flips and mirrors of images and regions and the byte flips proved for all sizes; pixel-wise ones by the bounded oracle',
    'C07': 'crop, copyrect and pasterect proved at every depth for all regions; conversion of selections by the bounded oracle',
    'C08': 'entry access, bulk setting, copying, rotation, generated palettes and the default test proved at depths 1, 4 and 8; bounded oracle beside it',
    'C10': 'inversion of images, regions and buffers proved at every depth; bounded oracle beside it',
    'C11': 'row helpers, enlarging and upgrading proved at every depth for fixed factors (parameters of the proofs, all sizes); further factors by the bounded oracle',
    'C12': 'packed colours, buffer inversion, palette matching, factors, filters proved; floating point as reals; hue and name conversions by the bounded oracle',
    'C13': 'the guard predicates and the refusal or start of every guarded operation proved at every depth; bounded oracle beside it',
    'C14': 'outline walks and disc rows proved for every radius and axes (nearest lattice points, symmetric, gap-free), drawings tied to them at every depth; bounded oracle beside it',
    'C18': 'codec proved for field widths 1, 2, 3, 4 and 8 at any offset; other widths by the bounded oracle',
    'C19': 'row filters and the image and region filters proved; gradients proved as to their frame, their values by the bounded oracle',
    'C21': 'vector helpers proved for any length over the reals; the numeric remainder (trigonometry, statistics) by the bounded oracle',
}
PENDING = 'not claimed yet: the check is still being built'


def main():
    import importlib.util
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for q in PROPS:
            f.write(json.dumps({k: q[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
    checks, na = [], []
    for q in PROPS:
        assert len(q['title']) <= 80, q['id']
        mod = os.path.join(V, 'props', q['id'].lower() + '.py')
        if q['claim'] and os.path.exists(mod):
            c = dict(property=q['id'], quick_cmd=f'python3-vt run.py {q["id"]} quick', thorough_cmd=f'python3-vt run.py {q["id"]} thorough',
                     technique='contract-based deductive verification of the real code: contracts and loop invariants over the ASTs of the functions in /repo, '
                               'obligations discharged by z3 and cvc5 (pyvc), failed obligations replayed on the real code; bounded stand-ins labelled as such',
                     level='proof', level_note=q['note'] or NOTES.get(q['id']) or 'see DESIGN.md')
            checks.append(c)
        else:
            na.append(dict(property=q['id'], reason=q['reason'] or PENDING))
    man = dict(version=1, setup_cmd='python3-vt -c "import z3, cvc5"', checks=checks, not_applicable=na,
               notes='run.py <property> quick|thorough; python3-vt is the pre-installed venv with z3 and cvc5; no hooks are used')
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
