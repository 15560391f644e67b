"""Which binary decides which property, how long it explores, and what is said about it."""
import json, os
_HERE = os.path.dirname(os.path.abspath(__file__))
_T = {json.loads(l)['id']: json.loads(l) for l in open(os.path.join(_HERE, 'properties.jsonl'))}
_IO = ['core/definitions.cpp', 'unicode/definitions.cpp', 'io/definitions.cpp']
GROUPS = {
    'file': dict(sim=['kernel.cpp', 'main.cpp', 'scn_file.cpp', 'scn_std.cpp'], repo=_IO, props=['C01', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C13', 'C14', 'C16']),
    # the header-only configuration, where the standard streams are inline variables; the scenarios are those of 'file'
    'std_ho': dict(sim=['kernel.cpp', 'main.cpp', 'scn_std.cpp', 'ho_extra.cpp'], repo=[], props=[], also=['C06', 'C07', 'C08'], share=0.3,
                   flags=['-DCMP_CONFIG_HEADER_ONLY=true', '-UCMP_CONFIG_IS_STATIC', '-DCMP_CONFIG_IS_STATIC=false']),
    'ctr': dict(sim=['kernel.cpp', 'main.cpp', 'scn_ctr.cpp'], repo=_IO, props=['C02']),
    'gui': dict(sim=['kernel.cpp', 'main.cpp', 'scn_gui.cpp'], repo=['core/definitions.cpp', 'desktop_gui/definitions.cpp'], props=['C17', 'C18', 'C19', 'C20', 'C23'],
                pkg='gtk4', flags=['-DG_DISABLE_CAST_CHECKS'], libs=['-lglib-2.0']),
    'core': dict(sim=['kernel.cpp', 'main.cpp', 'scn_test.cpp'], repo=['core/definitions.cpp'], props=['C24']),
    'thread': dict(sim=['kernel.cpp', 'main.cpp', 'sched.cpp', 'race.cpp', 'scn_thread.cpp'], repo=_IO, props=['C15'], san='thread',
                   libs=['-Wl,' + ','.join('--wrap=' + f for f in 'memcpy memmove memset memcmp memchr strlen strcpy strncpy strcat snprintf vsnprintf sprintf malloc calloc realloc __cxa_allocate_exception pthread_once'.split())]),
    'text': dict(sim=['kernel.cpp', 'main.cpp', 'scn_text.cpp'], repo=_IO, props=['C09', 'C10', 'C11', 'C12', 'C21', 'C22']),
}
GROUP_OF = {p: g for g, d in GROUPS.items() for p in d['props']}

# what a run of each property is made of, and how it is judged
_WHAT = {
    'C01': ('seeded histories of open/read/write/seek/flush/query on file objects over a simulated kernel with short and interrupted transfers, each result compared with a flat byte array and a cursor',
            'a history of 1-60 calls on one file object (all access modes, 16 buffer capacities) with transfer faults; non-trivial when at least one system call or fault happened'),
    'C02': ('seeded histories on container resources (owning/borrowing, in/out/both, three element widths) with failing allocations, against a flat byte array and a cursor',
            'a history of 1-60 calls on one container resource, any call may be hit by failing allocations; non-trivial when the resource was touched'),
    'C03': ('seeded write histories on files and standard output with device errors, full disks, short and interrupted writes, device contents compared with the accepted bytes at every step and after recovery',
            'a write history with device refusals followed by recovery; non-trivial when a transfer or fault happened'),
    'C04': ('process death injected before a seeded system call or inside a torn write, restart on the surviving file, contents compared with every prefix of the accepted writes back to the last flush',
            'a write history with at most one crash point; non-trivial when a transfer happened'),
    'C05': ('seeded read histories on files and standard input with device errors, interruptions and short transfers; guard bytes around the caller array; every byte compared with the source',
            'a read history with faults and retries; non-trivial when a transfer or fault happened'),
    'C06': ('a simulated peer feeds standard input in seeded chunks; the same calls must give the results the byte sequence alone determines and must not wait for more than they need',
            'a byte sequence, a chunking of it, interruptions and a list of extractions; non-trivial when at least one chunk or transfer happened'),
    'C07': ('a simulated peer that answers only what it has received, with seeded buffer capacities, chunk sizes, short and interrupted writes; deadlock is detected as both sides waiting',
            'a conversation of prompts and answers; non-trivial when at least one transfer happened'),
    'C08': ('seeded histories ending in close, reopen, destruction, move or process exit with short and interrupted writes; everything accepted must be on the device exactly once',
            'a write history with an ending, normal exit running the real exit-time destructors in a forked process; non-trivial when a transfer happened'),
    'C09': ('seeded text written through text streams of every encoding onto every kind of resource with short and interrupted transfers, compared with an independent encoder and read back',
            'a list of values written with one stream configuration and read back with another; non-trivial when the resource was touched'),
    'C10': ('stored text with seeded cuts, flips, insertions and losses of bytes and read faults, read in every way, compared with an independent strict decoder',
            'an encoded text, up to three damages, one way of reading it; non-trivial when damaged or when a transfer happened'),
    'C11': ('seeded sequences of binary values in either byte order on every kind of resource with short, interrupted and failing transfers and truncation',
            'a list of typed values written and read back; non-trivial when the resource was touched'),
    'C12': ('seeded mixtures of line, token, number and character extraction on every kind of resource, encoding and buffer capacity with chunking, short and interrupted transfers, against a segmentation model',
            'a text, a resource and a list of extractions; non-trivial when the resource was touched'),
    'C13': ('seeded histories of open (with failures), close, reopen, move, destroy and transfers on several file objects; the simulated kernel tracks every descriptor and every file',
            'a history over up to three file objects; non-trivial when a system call happened'),
    'C14': ('seeded histories that reopen a used file object (after failures too) and compare every later result with a fresh object',
            'a history with several openings of one object; non-trivial when a system call happened'),
    'C15': ('real threads run one at a time and are switched at seeded basic blocks of the library; each must get the results and files it gets when run alone, and a happens-before detector on every memory access reports unsynchronised use of common memory',
            'two or three thread programs and a schedule of slices counted in basic blocks, with transfer faults; non-trivial when a switch or transfer happened'),
    'C16': ('other simulated processes append, truncate, rename, replace and unlink between the system calls of a reader',
            'a read history interleaved with changes by other processes; non-trivial when a system call or change happened'),
    'C17': ('the real GTK back end on a simulated toolkit: seeded event streams and window histories, every handler call matched with the event delivered and the object that represents the window',
            'a history of window operations and toolkit events over up to six window objects; non-trivial when at least one event was delivered'),
    'C18': ('the real GTK back end on a simulated toolkit: seeded close requests, vetoes, reopenings and event loops run to their end',
            'a history of window operations, close requests and event-loop runs; non-trivial when at least one event was delivered'),
    'C19': ('the real GTK back end on a simulated toolkit and clock: seeded idle rounds, events, clock steps and moves, times checked against the simulated clock',
            'a history of idle rounds, clock steps and window operations; non-trivial when at least one event was delivered'),
    'C20': ('the real GTK back end on a simulated toolkit: handlers carry out seeded window operations while the loop is iterating, under AddressSanitizer',
            'a history in which handlers open, close, move, retitle and destroy windows; non-trivial when at least one event was delivered'),
    'C21': ('seeded numbers and booleans written through text streams, plainly and in seeded formats, onto every kind of resource in every encoding with chunking, short and interrupted transfers, compared with an independent formatter and read back as values',
            'up to ten values with their formats, one writing and one reading configuration; non-trivial when the resource was touched'),
    'C22': ('seeded texts of well-formed and damaged number and boolean words on every kind of resource in every encoding with chunking, short and interrupted transfers, each word read as a value and compared with an independent strict parser',
            'up to twelve words with their types and formats, up to three edits each, one reading configuration; non-trivial when the resource was touched'),
    'C23': ('the real GTK back end on a simulated toolkit: title, size, mode and visibility of every toolkit window compared with what the program and the user last made of them after every operation and event, at top level and inside handlers',
            'a history of window operations and toolkit events over up to six window objects; non-trivial when at least one event was delivered'),
    'C24': ('seeded test modules run on a simulated console that may stop taking output at any byte, with the process dying inside seeded tests and modules run again; report, messages, order and verdict compared with a model',
            'a module of up to 230 registrations of up to fourteen scripted tests, one to three runs; non-trivial when at least one test ran or output was delivered'),
}
_NOTE = ('Sampled executions: every seed is one exactly repeatable run of the real code compiled from /repo, so a reported '
         'violation is real, but absence of violations is evidence for the sampled histories only. Trusted: the simulated '
         'kernel/peer/toolkit, the reference model, g++ and AddressSanitizer.')
_DISTINCT = ' Distinct = different sequence of (operation, result class, fault) shapes.'
PROPS = {p: dict(title=_T[p]['title'], technique=_WHAT[p][0], rule=_WHAT[p][1] + '.' + _DISTINCT, note=_NOTE) for p in GROUP_OF}
NOT_APPLICABLE = {
    'N01': 'Pure functions of their argument: no schedule, clock, I/O, randomness or fault for a simulation to control; what of it streams depend on is decided under C09, C10, C12 and C21.',
    'N03': 'The Windows and macOS sources cannot be compiled or run in this Linux sandbox, so there is no real code to simulate.',
}
