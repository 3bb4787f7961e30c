"""Writes tools/seeded.md from the specs and the last results noted here."""
import os
import sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import seeds
# planted bugs that the checks missed when they were first tried, and what
# was done about it
FIRST_MISSED = {
    'ratio-overflow': 'missed at first (steep targets were driven with the '
                      'default balancing function only); C05 now drives all '
                      'four',
    'normcut-empty-part': 'missed at first (states with an empty part were '
                          'left out as undefined); C10 now demands that they '
                          'are worse than any proper partition',
    'fhmm-common-noise': 'missed at first (only the pooled noise was judged); '
                         'C23 now judges it over time',
}
out = ['| planted bug | property | needs | caught by | remark |',
       '|---|---|---|---|---|']
for s in seeds.SEEDS:
  out.append('| %s | %s | %s | quick %s | %s |' % (
      s['id'], s['prop'], s['needs'], s['prop'],
      FIRST_MISSED.get(s['id'], '')))
open(os.path.join(here, 'seeded.md'), 'w').write('\n'.join(out) + '\n')
