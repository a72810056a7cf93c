"""What the annotated utilities document, written from their manuals (GNU coreutils 9, grep 3.11, sed 4.9, diffutils 3,
findutils 4, gawk 5, util-linux col), independently of the package's data files and generators.

Each entry: flags (spellings of one flag on one line part), options with the access they make of their argument."""

ARG = None      # a plain parameter


class Util:
    def __init__(self, flags='', opts='', attached=''):
        self.flags = [f.split() for f in flags.split('|') if f.split()]
        self.opts = []          # (spellings, access or None)
        for o in opts.split('|'):
            if not o.split():
                continue
            names, _, acc = o.partition(':')
            self.opts.append((names.split(), acc.strip() or None))
        # spellings that take only an attached argument, and the option they then stand for
        self.attached = dict(x.split('>') for x in attached.split())
        self.cf = {s: f[0] for f in self.flags for s in f}
        self.co = {s: o[0][0] for o in self.opts for s in o[0]}
        self.oaccess = {s: o[1] for o in self.opts for s in o[0]}
        self.co_att = dict(self.co)
        self.co_att.update({a: self.co[b] for a, b in self.attached.items()})


DIG = ' | '.join('-%d' % i for i in range(10))

U = {
    'awk': Util('-b --characters-as-bytes | -c --traditional | -C --copyright | -d --dump-variables | -D --debug |'
               '-g --gen-pot | -h --help | -I --trace | -k --csv |'
               '-L --lint | -M --bignum | -n --non-decimal-data | -N --use-lc-numeric | -o --pretty-print | -O --optimize |'
               '-p --profile | -P --posix | -r --re-interval |'
                '-s --no-optimize | -S --sandbox | -t --lint-old | -V --version',
                '-f --file : CONFIG_INPUT | -F --field-separator | -v --assign | -e --source | -E --exec : CONFIG_INPUT |'
                '-i --include : CONFIG_INPUT | -l --load'),
    'cat': Util('-A --show-all | -b --number-nonblank | -e | -E --show-ends | -n --number | -s --squeeze-blank | -t |'
                '-T --show-tabs | -u | -v --show-nonprinting | --help | --version'),
    'col': Util('-b --no-backspaces | -f --fine | -h --tabs | -p --pass | -x --spaces | -V --version | -H --help',
                '-l --lines'),
    'comm': Util('-1 | -2 | -3 | --check-order | --nocheck-order | --total | -z --zero-terminated | --help | --version',
                 '--output-delimiter'),
    'custom_sort': Util(),
    'custom_tr': Util(),
    'cut': Util('-n | --complement | -s --only-delimited | -z --zero-terminated | --help | --version',
                '-b --bytes | -c --characters | -d --delimiter | -f --fields | --output-delimiter'),
    'diff': Util('--normal | -q --brief | -s --report-identical-files | -e --ed | -n --rcs | -y --side-by-side | --left-column |'
                 '--suppress-common-lines | -p --show-c-function | -t --expand-tabs | -T --initial-tab | --suppress-blank-empty |'
                 '-l --paginate | -r --recursive | --no-dereference | -N --new-file | --unidirectional-new-file |'
                 '--ignore-file-name-case | --no-ignore-file-name-case | -i --ignore-case | -E --ignore-tab-expansion |'
                 '-Z --ignore-trailing-space | -b --ignore-space-change | -w --ignore-all-space | -B --ignore-blank-lines |'
                 '-a --text | --strip-trailing-cr | -d --minimal | --speed-large-files | --help | -v --version |'
                 '-c --context | -u --unified | --color --color=auto | --color=always | --color=never',
                 '-C | -U | -W --width | -F --show-function-line | --label | --tabsize | -x --exclude |'
                 '-X --exclude-from : EXCLUDES_FROM_INPUT | -S --starting-file : OTHER_INPUT | --from-file : STREAM_INPUT |'
                 '--to-file : STREAM_INPUT | -I --ignore-matching-lines | -D --ifdef | --old-group-format | --new-group-format |'
                 '--changed-group-format | --unchanged-group-format | --line-format | --old-line-format | --new-line-format |'
                 '--unchanged-line-format | --horizon-lines | --palette',
                 '--context>-C --unified>-U'),
    'export': Util('-f | -n | -p'),
    'grep': Util('-E --extended-regexp | -F --fixed-strings | -G --basic-regexp | -P --perl-regexp | -i -y --ignore-case |'
                 '--no-ignore-case | -v --invert-match | -w --word-regexp | -x --line-regexp | -c --count |'
                 '-L --files-without-match | -l --files-with-matches | -o --only-matching | -q --quiet --silent |'
                 '-s --no-messages | -b --byte-offset | -H --with-filename | -h --no-filename | -n --line-number |'
                 '-T --initial-tab | -u --unix-byte-offsets | -Z --null | --no-group-separator | -a --text | -I | -r --recursive |'
                 '-R --dereference-recursive | --line-buffered | -U --binary | -z --null-data | --color --colour |'
                 '--color=always --colour=always | --color=auto --colour=auto | --color=never --colour=never |'
                 '-V --version | --help | ' + DIG,
                 '-e --regexp | -f --file : CONFIG_INPUT | -m --max-count | --label | -A --after-context | -B --before-context |'
                 '-C --context | --group-separator | --binary-files | -D --devices | -d --directories | --exclude |'
                 '--exclude-from : EXCLUDES_FROM_INPUT | --exclude-dir | --include'),
    'head': Util('-q --quiet --silent | -v --verbose | -z --zero-terminated | --help | --version | ' + DIG,
                 '-n --lines | -c --bytes'),
    'mkfifo': Util('-Z --context | --help | --version', '-m --mode'),
    'mv': Util('-b --backup | --debug | -f --force | -i --interactive | -n --no-clobber | --no-copy |'
               '--strip-trailing-slashes | -T --no-target-directory | -u --update | -v --verbose | -Z --context | --help |'
               '--version | --backup=none | --backup=off | --backup=numbered | --backup=t | --backup=existing | --backup=nil |'
               '--backup=simple | --backup=never | --update=all | --update=none | --update=none-fail | --update=older',
               '-S --suffix | -t --target-directory : OTHER_OUTPUT'),
    'rm': Util('-f --force | -i | -I | --one-file-system | --no-preserve-root | -r -R --recursive | -d --dir | -v --verbose |'
               '--help | --version | --interactive --interactive=always | --interactive=once | --interactive=never |'
               '--preserve-root | --preserve-root=all'),
    'sed': Util('-n --quiet --silent | --debug | --follow-symlinks | --posix | -E -r --regexp-extended | -s --separate |'
                '--sandbox | -u --unbuffered | -z --null-data | --help | --version | -i --in-place',
                '-e --expression | -f --file : CONFIG_INPUT | -l --line-length'),
    'seq': Util('-w --equal-width | --help | --version', '-f --format | -s --separator'),
    'set_diff': Util(),
    'sort': Util('-b --ignore-leading-blanks | -d --dictionary-order | -f --ignore-case | -g --general-numeric-sort |'
                 '-i --ignore-nonprinting | -M --month-sort | -h --human-numeric-sort | -n --numeric-sort | -R --random-sort |'
                 '-r --reverse | -V --version-sort | -c --check --check=diagnose-first | -C --check=quiet --check=silent |'
                 '--debug | -m --merge | -s --stable | -u --unique | -z --zero-terminated | --help | --version',
                 '--random-source : CONFIG_INPUT | --sort | --batch-size | --compress-program |'
                 '--files0-from : CONTAINER_FOR_INPUT | -k --key | -o --output : STREAM_OUTPUT | -S --buffer-size |'
                 '-t --field-separator | -T --temporary-directory : OTHER_OUTPUT | --parallel'),
    'tail': Util('-f --follow --follow=descriptor | --follow=name | -F | -q --quiet --silent | --retry | -v --verbose |'
                 '-z --zero-terminated | --help | --version | ' + DIG,
                 '-c --bytes | -n --lines | -s --sleep-interval | --max-unchanged-stats | --pid'),
    'tee': Util('-a --append | -i --ignore-interrupts | -p | --help | --version | --output-error | --output-error=warn |'
                '--output-error=warn-nopipe | --output-error=exit | --output-error=exit-nopipe'),
    'tr': Util('-c -C --complement | -d --delete | -s --squeeze-repeats | -t --truncate-set1 | --help | --version'),
    'uniq': Util('-c --count | -d --repeated | -D | --all-repeated --all-repeated=none | --all-repeated=prepend |'
                 '--all-repeated=separate | --group --group=separate | --group=prepend | --group=append | --group=both |'
                 '-i --ignore-case | -u --unique | -z --zero-terminated | --help | --version',
                 '-f --skip-fields | -s --skip-chars | -w --check-chars'),
    'wc': Util('-c --bytes | -m --chars | -l --lines | -L --max-line-length | -w --words | --help | --version',
               '--files0-from : CONTAINER_FOR_INPUT | --total'),
    'xargs': Util('-0 --null | -o --open-tty | -p --interactive | -r --no-run-if-empty | --show-limits | -t --verbose |'
                  '-x --exit | -e --eof | -i --replace | -l --max-lines | --help | --version',
                  '-a --arg-file : OTHER_INPUT | -d --delimiter | -E | -I | -L | -n --max-args | -P --max-procs |'
                  '-s --max-chars | --process-slot-var',
                  '-e>-E --eof>-E -i>-I --replace>-I -l>-L'),
    'alt_bigrams_aux': Util(), 'alt_bigram_aux_reduce': Util(), 'bigrams_aux': Util(), 'bigram_aux_map': Util(),
    'bigram_aux_reduce': Util(), 'test_one': Util(), 'test_two': Util(),
}
# Deprecated equivalences: xargs --max-lines=N is -L N (a long spelling of -L too)
U['xargs'].co_att['--max-lines'] = '-L'
UNKNOWN = ['nosuchcmd']


def same_flag(u, a, b):
    """a and b spell the same flag (or are the same word)."""
    return u.cf.get(a, a) == u.cf.get(b, b)


def same_opt(u, a, b):
    return u.co.get(a, a) == u.co.get(b, b)


def same_opt_att(u, a, b):
    return u.co_att.get(a, a) == u.co_att.get(b, b)


def spellings(u):
    return sorted(u.cf) + sorted(set(u.co) | set(u.co_att) - set(u.cf))


class Item:
    """A flag or option of the reference parse: kind 'flag' or 'opt', canonical name, argument word."""
    def __init__(self, kind, name, arg, site):
        self.kind, self.name, self.arg, self.site = kind, name, arg, site


def ref_parse(u, words):
    """Documented reading of the words after the command name: items, operands."""
    items = []
    i = 0
    n = len(words)
    while i < n:
        w = words[i]
        if w in u.cf:
            items.append(Item('flag', u.cf[w], None, i))
            i += 1
            continue
        if w in u.co and i + 1 < n:
            items.append(Item('opt', u.co[w], words[i + 1], i))
            i += 2
            continue
        if len(w) < 2 or w[0] != '-':
            break
        if w[1] == '-':
            head, eqs, tail = w.partition('=')
            if eqs == '=' and head in u.co_att:
                items.append(Item('opt', u.co_att[head], tail, i))
                i += 1
                continue
            break
        group = []
        used = 0
        k = 1
        good = True
        while k < len(w):
            s = '-' + w[k]
            if k + 1 < len(w) and s in u.co_att:
                group.append(Item('opt', u.co_att[s], w[k + 1:], i))
                k = len(w)
            elif s in u.cf:
                group.append(Item('flag', u.cf[s], None, i))
                k += 1
            elif s in u.co and i + 1 < n:
                group.append(Item('opt', u.co[s], words[i + 1], i))
                used = 1
                k = len(w)
            else:
                good = False
                k = len(w)
        if not good:
            break
        items += group
        i += 1 + used
    return items, words[i:]
