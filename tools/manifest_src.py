#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. Edit CHECKS, then run."""
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
hooks = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], capture_output=True, text=True).stdout.splitlines()
hook_commits = [l.split()[0] for l in hooks if 'cfg(laya_verif)' in l]
CHECKS = {
 'C01': ('bounded-exhaustive exploration of inputs against an independent grammar', 'exploration', 'All region strings up to the symbol bound and all products of numeral spellings, on the real parser; values against glibc strtof.'),
 'C02': ('bounded-exhaustive exploration of inputs against an independent grammar', 'exploration', 'All size strings up to the symbol bound and all products of prefixes and numeral spellings, on the real parser.'),
 'C03': ('bounded-exhaustive exploration of inputs against an independent grammar', 'exploration', 'All rotation, quality and format strings up to the symbol bound, all near-misses of the keywords, every decimal of the angle range with two digits.'),
 'C04': ('bounded-exhaustive exploration of request paths on two builds against an independent decoder', 'exploration', 'All paths up to the token bound and all segment products, on the real decoder built with and without debug assertions.'),
 'C05': ('bounded-exhaustive exploration of request targets through the real HTTP stack over a simulated runtime', 'exploration', 'All identifiers up to the token bound; every file open is recorded by the simulated runtime.'),
 'C06': ('explicit-state exploration of deliveries, partial writes, disconnects and schedules of the real server under a controlled runtime', 'model_checking', 'Real handler, adapter, hyper and h2 over simulated sockets; every split, write room, disconnect point and bounded-delay schedule of the stated scenes.'),
 'C07': ('stateless model checking of the real serving loop under a controlled scheduler', 'model_checking', 'All event orders with bounded departures from FIFO task order for 1-3 clients and limits 1-2, plus the deployed limit in long histories.'),
 'C10': ('bounded-exhaustive exploration of encoder configurations and images on the real encoder and decoder', 'exploration', 'Every configuration within the stated number of deviations from four bases of an 18-parameter grid, every small area, tile grid, precision and tiny image; encode, decode, compare; under an address sanitizer.'),
 'C11': ('bounded-exhaustive exploration of encoder configurations and images against an independent reference decoder', 'exploration', 'The spaces of C10 at greater depth; the bytes are parsed and decoded by a decoder written from the standard and its declared parameters compared with the requested ones.'),

 'C12': ('bounded-exhaustive exploration of codestream layouts from an independent encoder against an independent decoder', 'exploration', 'Every legal codestream within the stated number of deviations from six bases of a 26-parameter layout grid, built by an encoder and decoded by a decoder both written from the standard, and by the library; under an address sanitizer.'),
 'C13': ('bounded-exhaustive exploration of windows, layouts and histories on the real decoder against an independent decoder', 'exploration', 'All windows of small images, all pairs of intervals of interest and all sequences of up to three windows on one codec, over the layout grid of C12; under an address sanitizer.'),
 'C14': ('exhaustive exploration of tile request histories on the real decoder against an independent decoder', 'exploration', 'All sequences of tile requests up to the bound and every streamed decode, over the layout grid of C12; under an address sanitizer.'),
 'C15': ('bounded-exhaustive exploration of reductions, sizes and layouts on the real decoder against an independent decoder', 'exploration', 'Every reduction of every layout within two deviations and of all small images, offsets and depths; under an address sanitizer.'),
 'C16': ('bounded-exhaustive exploration of component lists on the real decoder against an independent decoder', 'exploration', 'Every list of component indices up to the bound, whole and in windows, over the layout grid of C12; under an address sanitizer.'),
 'C17': ('bounded-exhaustive exploration of layered codestreams and encoder allocations against an independent decoder and byte accounting', 'exploration', 'Every number of layers of every layered layout within two deviations of a base, and of the encodings for a menu of rates, qualities, pictures, tiles, progressions and precincts; bytes of every layer are counted from the parsed packets.'),
 'C18': ('exhaustive fault enumeration over the stream callbacks of the real decoder', 'fault_enumeration', 'Every buffer size of a range, short delivery and pair of short deliveries, failure of every callback, missing callbacks and wrong lengths, for whole, windowed, tile-wise and streamed decodes of every layout within one deviation of a base, as codestream and JP2 file.'),
 'C19': ('exhaustive fault enumeration over the stream callbacks of the real encoder', 'fault_enumeration', 'Every buffer size of a range, short write and pair of short writes, failure of every callback, missing callbacks and kinds of files, for encoder configurations within two deviations of four bases; under an address sanitizer.'),
 'C20': ('exhaustive crash-point enumeration (every prefix) on the real decoder against an independent decoder of the packets that are there', 'fault_enumeration', 'Every prefix of every layout of a covering set (thorough: within one deviation of a base), as codestream and JP2 file, strict or not, the end known or a failing read, whole and in a window; under an address sanitizer (thorough: without).'),
 'C21': ('exhaustive fault enumeration (every byte position) on the real decoder under an address sanitizer', 'fault_enumeration', 'Every single-byte alteration of the headers of base files and a menu of alterations, removals, insertions and extreme fields at every position of a covering set of layouts, as codestream and JP2 file, each through one of seven ways of decoding.'),
 'C22': ('explicit-state exploration of call sequences on the real library against a model of its states, with heap accounting', 'model_checking', 'Every sequence of calls up to the bound on the real codec; a model of what each call requires predicts refusals, acceptances, samples and bytes; memory in use is compared before and after; under an address sanitizer.'),
 'C23': ('bounded-exhaustive exploration of JP2 files against an independent box reader and writer', 'exploration', 'Every box of every file written for all combinations of components, colour spaces, depths, signs, alpha, profiles and areas is parsed independently and read back; all palettes, component mappings and channel definition tables of a small domain, foreign boxes at all positions, box orders and lengths are read in all ways of decoding and compared with what the boxes define; under an address sanitizer.'),
 'C24': ('bounded-exhaustive exploration of codestreams against an independent marker parser', 'exploration', 'Information and index after the header and after five ways of decoding, for every legal codestream of the layout grid and everything the encoder makes of the configuration grid, compared with an independent reading of the marker segments; under an address sanitizer.'),
 'C25': ('bounded-exhaustive exploration of irreversible codings against an independent real-valued transform and decoder', 'exploration', 'Every irreversible configuration within two deviations of a base, every content, precision and sign, quantiser style and step, reduction and small image size: the samples equal what an independent real-valued inverse makes of the quantised coefficients to within one unit, lie in the range and near the original; under an address sanitizer.'),
 'C26': ('bounded-exhaustive exploration of matrices, component numbers, configurations and transform markers against the model of Part 2', 'exploration', 'Every matrix of a small domain for two and three components, menus for more, every number of components, precision and configuration of the stated spaces, and every way of laying the transform markers out: decoded samples against the original and an independent inverse, the markers against an independent parser, singular matrices refused; under an address sanitizer.'),
 'C27': ('explicit-state exploration of tile call sequences on the real encoder against a model, and bounded-exhaustive comparison of both ways of encoding', 'model_checking', 'Every sequence of calls up to the bound (right, repeated, skipped, missing tiles, wrong sizes) against a model of what is accepted; bytes equal whole-image encoding for every configuration, precision and tile grid of the stated spaces; under an address sanitizer.'),
 'C28': ('bounded-exhaustive exploration of high-throughput code-blocks and codestreams, against an independent encoder of Part 15 and the reference decoder of Part 1', 'exploration', 'Every block size, precision, small content and significance pattern of the stated spaces with every choice of passes and codes, every codestream layout within one deviation of six bases, every byte of a set of blocks damaged; under an address sanitizer.'),
}
NA = []
def main():
    props = [json.loads(l)['id'] for l in open(f'{V}/properties.jsonl')]
    checks = []
    for p in props:
        if p in CHECKS:
            t, l, n = CHECKS[p]
            checks.append({'property': p, 'quick_cmd': f'env VERIF_TIER=quick bash /verif/run.sh {p}', 'thorough_cmd': f'env VERIF_TIER=thorough bash /verif/run.sh {p}', 'technique': t, 'level': l, 'level_note': n})
    na = list(NA)
    for p in props:
        if p not in CHECKS and p not in [x['property'] for x in na]:
            na.append({'property': p, 'reason': 'check under construction'})
    m = {'version': 1, 'setup_cmd': 'bash /verif/setup.sh',
         'hooks': {'guard': 'cfg(laya_verif)', 'enable': 'RUSTFLAGS="--cfg laya_verif" (set in /verif/iiif/.cargo/config.toml)', 'source_commits': hook_commits},
         'checks': checks, 'not_applicable': na}
    open(f'{V}/MANIFEST.json', 'w').write(json.dumps(m, indent=1) + '\n')
main()
