"""Writes the table of planted bugs at the end of DESIGN.md from
seeded/*/meta.json."""
import glob
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST_MISSED = {
    'c04-no-sign': 'rasters across Greenwich added',
    'c05-byte-classes': 'integer types wrap in the engine; 8-bit task added',
    'c10-mean-width': 'cell sizes that differ by row added',
    'c16-reciprocal': 'rounding of cell numbers added',
    'c07-geometric-mean': 'oblong cells added',
    'c07-width-cap': 'large windows of small cells added',
    'c14-beta-limit': 'long profiles added',
    'c30-byte-land-cover': 'other data types added',
    'c12-kernel-cap': 'cells of 6 and 11 m added',
    'c17-offshore': 'eight more tile positions added',
    'c18-below-sea-level': 'range of elevations extended',
    'c20-range-nan': 'actual_range added',
    'c18-byte-dem': 'no data of 0 added',
    'c18-one-row': 'tiles of one row or column with missing cells added',
    'c20-option-names': 'several sections added',
    'c21-ones-shape': 'oblong tiles with missing files added',
    'c24-path-replace': 'another directory added',
    'c25-dissolve-case': 'merge() itself added',
    'c26-hidden-files': 'hidden file moved to the front',
    'c26-links': 'links in the old directory added',
    'c27-mean-fill': 'maxima with known numbers first; tasks with few unknown '
                     'cells added',
    'c29-grid-of-land-cover': 'other land-cover extents added',
    'c30-early-return': 'left-over tiles added',
}


def main():
    p = os.path.join(VERIF, 'DESIGN.md')
    with open(p) as f:
        s = f.read()
    head = '| bug | property | needs | caught by |\n|---|---|---|---|\n'
    s = s[:s.index(head)] + head
    for d in sorted(glob.glob(os.path.join(VERIF, 'seeded', '*'))):
        n = os.path.basename(d)
        with open(os.path.join(d, 'meta.json')) as f:
            m = json.load(f)
        late = FIRST_MISSED.get(n)
        s += '| %s | %s | %s | %s%s |\n' % (
            n, m['property'], ' '.join(m['needs'].split()).replace('|', '/'),
            m['property'], ' (missed at first: %s)' % late if late else '')
    with open(p, 'w') as f:
        f.write(s)


if __name__ == '__main__':
    main()
