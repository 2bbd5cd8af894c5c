"""Random scripts for the terminal harness.

A script is a list of operations (line, tags, hist): the line for
harness/term.c, the properties that say what the operation does, and the
properties whose hidden state it changes.
"""
import random

NARROW = [0xe4, 0xf1, 0x416, 0x2500, 0x3b1, 0x2192, 0x20ac, 0xa1, 0x1d400]
WIDE = [0x4e00, 0x4e8c, 0xac00, 0xff21, 0x3042, 0x1f600, 0x20000, 0x1100]
ZERO = [0x300, 0x301, 0x200b, 0xfe0f]
LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
SATTR = "2 3 0 0 0 0 0 0 0 0 0 0 0 0"
BIG = [255, 1000, 65535]
HUGE = [2147483647, 4294967295, 4294967290, 2147483648, 1431655766, 1073741824]


def utf8(c):
    """also of what is not a character"""
    return chr(c).encode("utf-8", "surrogatepass")


def anychar(r):
    """any code point, with those near limits more often"""
    p = r.random()
    if p < .3:
        return min(0x10ffff, r.choice(
            [0xa2, 0x300, 0x7ff, 0x800, 0xd7ff, 0xd801, 0xfdd0, 0xffff,
             0x10000, 0x1fffe, 0x10ffff]) + r.randrange(-2, 3))
    if p < .5:
        return r.randrange(0xa0, 0x3000)
    if p < .8:
        return r.randrange(0x3000, 0x10000)
    return r.randrange(0x10000, 0x110000)


FLAG = {1: "C04", 2: "C04", 4: "C05", 8: "C14", 16: "C14", 32: "C07",
        64: "C11"}


class G:
    def __init__(self, rng, vte, w, h, osc=1, mcb=1):
        self.r = rng
        self.vte = vte
        self.w = w
        self.h = h
        self.ops = []
        self.li = rng.randrange(len(LETTERS))
        self.enc = "utf8"
        self.attrs = None
        self.alt = False
        self.add("new %d %d %d %d %d" % (w, h, int(vte), osc, mcb))

    def add(self, line, tags="", hist=""):
        self.ops.append((line, frozenset(tags.split()),
                         frozenset(hist.split())))

    def inp(self, data, tags="", hist=""):
        if isinstance(data, str):
            data = data.encode("latin-1")
        self.add("in " + data.hex(), tags, hist)

    # ---- values
    def letter(self):
        self.li = (self.li + 1) % len(LETTERS)
        return LETTERS[self.li]

    def num(self, extra=()):
        r = self.r
        return r.choice([0, 1, 1, 1, 2, 2, 3, 4, r.randrange(1, 12),
                         self.h, self.h - 1, self.w, self.w - 1,
                         self.h + 1, self.w + 1, r.choice(BIG)] + list(extra))

    def unum(self):
        return self.num(HUGE if self.r.random() < .3 else ())

    def cnum(self):
        """a small count"""
        return self.r.choice([0, 1, 1, 1, 2, 2, 3, self.h])

    def attr(self, simple=False):
        r = self.r
        if simple or r.random() < .5:
            return "2 3 0 0 0 0 0 0 0 0 0 0 0 0"
        a = [r.choice([-1, 0, 1, 7, 8, 15, 16]),
             r.choice([-1, 0, 2, 15, 17])]
        a += [r.choice([0, 1, 128, 255]) for _ in range(6)]
        a += [int(r.random() < .3) for _ in range(6)]
        return " ".join(map(str, a))

    # ---- screen interface
    def s_write(self):
        r = self.r
        p = r.random()
        c = (ord(self.letter()) if p < .7 else r.choice(WIDE) if p < .85 else
             r.choice(NARROW) if p < .92 else r.choice(ZERO) if p < .95
             else anychar(r) if p < .96 else r.choice([32, 32, 32, 126, 33]))
        self.add("write %d %s" % (c, self.attr()), "C04")

    def s_drawn(self):
        """few characters, many attributes"""
        r = self.r
        for _ in range(r.choice([1, 2, 3, self.w])):
            a = [2, 3, 0, 0, 0, 0, 0, 0] + [0] * 6
            for k in range(r.choice([0, 1, 1, 2, 6])):
                a[r.randrange(8, 14)] = 1
            self.add("write %d %s" % (r.choice([65, 65, 66, 32, 32, 0x4e00, 0xe9,
                                                0x1f600, anychar(r)]),
                                      " ".join(map(str, a))), "C04")

    def s_text(self):
        """a run of characters, possibly over the end of the line"""
        r = self.r
        n = r.choice([1, 2, 3, self.w, self.w + 1, self.w * 2])
        for _ in range(min(n, 20)):
            p = r.random()
            c = (ord(self.letter()) if p < .77 else 32 if p < .87 else
                 r.choice(WIDE))
            self.add("write %d %s" % (c, self.attr(True)), "C04")

    def s_fill(self):
        """fill the screen with distinct characters"""
        if self.w * self.h > 50:
            return
        for y in range(self.h):
            self.add("moveto 0 %d" % y)
            for x in range(self.w):
                prot = int(self.r.random() < .2)
                self.add("write %d 2 3 0 0 0 0 0 0 0 0 0 0 %d 0" %
                         (ord(self.letter()), prot))
        self.s_goto()

    def s_goto(self):
        x = self.r.randrange(self.w)
        y = self.r.randrange(self.h)
        self.add("moveto %d %d" % (x, y), "C05")
        if self.r.random() < .15:
            # beyond the last column
            self.add("lineend", "C05")
            self.add("write %d %s" % (
                self.r.choice([ord(self.letter()), self.r.choice(WIDE)]),
                self.attr(True)), "C04")

    def s_move(self):
        r = self.r
        k = r.choice(["moveto", "moveup", "movedown", "moveleft", "moveright",
                      "lineend", "linehome", "moveup", "movedown"])
        if k == "moveto":
            self.add("moveto %d %d" % (self.unum(), self.unum()), "C05")
        elif k in ("moveup", "movedown"):
            s = int(r.random() < .4)
            self.add("%s %d %d" % (k, self.unum(), s),
                     "C05 C06" if s else "C05")
        elif k in ("moveleft", "moveright"):
            self.add("%s %d" % (k, self.unum()), "C05")
        else:
            self.add(k, "C05")

    def s_margins(self):
        r = self.r
        a = r.randrange(0, self.h + 1)
        b = r.choice([r.randrange(0, self.h + 2), self.h, a + 1, a + 2])
        self.add("margins %d %d" % (a, b), "C05 C06", "C05 C06 C04")

    def s_fourbytes(self):
        """narrow characters that are as long as possible in UTF-8"""
        self.add("moveto 0 %d" % self.r.randrange(self.h))
        for k in range(self.w):
            self.add("write %d %s" % (0x1d400 + k % 50, SATTR), "C04")
        self.add("selstart 0 0", "C12", "C12")
        self.add("seltarget %d %d" % (self.w - 1, self.r.randrange(self.h)),
                 "C12", "C12")
        self.add("selcopy", "C12")

    def v_fourbytes(self):
        self.inp(b"\r" + b"".join(utf8(0x1d400 + k % 50)
                                  for k in range(self.w)), "C04")
        self.add("selstart 0 0", "C12", "C12")
        self.add("seltarget %d %d" % (self.w - 1, self.r.randrange(self.h)),
                 "C12", "C12")
        self.add("selcopy", "C12")

    def s_flag(self, flags, tags, hist=""):
        r = self.r
        f = r.choice(flags)
        if r.random() < .12 and not self.vte:
            # together with others (not behind the back of a terminal, whose
            # modes they are)
            more = r.choice([r.randrange(128), r.choice([1, 2, 4, 8, 16]),
                             4 + 8, 8 + 16, 1 + 4])
            more = " ".join(FLAG[1 << k] for k in range(7)
                            if (f | more) >> k & 1), f | more
            tags, hist, f = more[0], more[0], more[1]
        self.add("%s %d" % (r.choice(["setflags", "setflags", "resetflags"]),
                            f), tags, hist)

    def s_printflags(self):
        self.s_flag([1, 2, 2, 3], "C04", "C04")

    def s_origin(self):
        self.s_flag([4], "C05", "C05")

    def s_lookflags(self):
        self.s_flag([8, 16], "C14", "C14")

    def s_fixflag(self):
        self.s_flag([32], "C07", "C07")

    def s_alt(self):
        self.s_flag([64], "C11", "C11")

    def s_newline(self):
        self.add("newline", "C06 C04")

    def s_scroll(self):
        self.add("%s %d" % (self.r.choice(["scrollup", "scrolldown"]),
                            self.unum()), "C06")

    def s_scrollup(self):
        self.add("scrollup %d" % self.cnum(), "C06 C07")

    def s_insdel(self):
        self.add("%s %d" % (self.r.choice(["inslines", "dellines", "inschars",
                                           "delchars"]), self.unum()), "C06")

    def s_erase(self):
        r = self.r
        k = r.choice(["erasecur", "erasechars", "ecte", "ehtc", "eline",
                      "estc", "ects", "escr"])
        if k == "erasecur":
            self.add(k, "C08")
        elif k == "erasechars":
            self.add("%s %d" % (k, self.unum()), "C08")
        else:
            self.add("%s %d" % (k, r.randrange(2)), "C08")

    def s_tab(self):
        r = self.r
        k = r.choice(["settab", "settab", "rsttab", "rstall", "tabr", "tabl",
                      "tabr", "tabl"])
        if k in ("tabr", "tabl"):
            self.add("%s %d" % (k, self.unum()), "C09")
        else:
            self.add(k, "C09", "C09")

    def s_tabrich(self):
        r = self.r
        self.add("rstall", "C09", "C09")
        for _ in range(r.randrange(1, 5)):
            self.add("moveto %d 0" % r.randrange(self.w))
            self.add("settab", "C09", "C09")
        self.add("moveto %d 0" % r.randrange(self.w))

    def s_sb(self):
        r = self.r
        k = r.choice(["sbup", "sbdown", "sbup", "sbdown", "sbpgup",
                      "sbpgdown", "sbreset"])
        if k == "sbreset":
            self.add(k, "C07", "C07")
        elif k in ("sbup", "sbdown"):
            self.add("%s %d" % (k, self.unum()), "C07", "C07")
        else:
            self.add("%s %d" % (k, self.r.choice(
                [0, 1, 1, 2, 100, r.choice(HUGE)])), "C07",
                     "C07")

    def s_maxsb(self):
        self.add("maxsb %d" % self.r.choice([0, 1, 2, 3, 5, 10, 100]), "C07",
                 "C07")

    def s_clearsb(self):
        self.add("clearsb", "C07", "C07")

    def s_resize(self, big=False):
        r = self.r
        if r.random() < .12:
            if r.random() < .5:
                self.add("resize %d %d" % r.choice([(0, 3), (3, 0), (0, 0)]),
                         "C10", "C10")
            else:
                self.add("resize %d %d" % (self.w, self.h), "C10", "C10")
            return
        m = 30 if big else 9
        w = r.choice([self.w, max(1, self.w + r.choice([-2, -1, 1, 2])),
                      r.randrange(1, m)])
        h = r.choice([self.h, max(1, self.h + r.choice([-2, -1, 1, 2])),
                      r.randrange(1, 8)])
        self.w, self.h = w, h
        self.add("resize %d %d" % (w, h), "C10", "C10")

    def s_defattr(self):
        self.add("defattr " + self.attr(), "C14", "C14")

    def s_reset(self):
        self.add("reset", "C15", "C15")

    def s_sel(self):
        r = self.r
        far = [self.w, self.h, 300] + BIG + HUGE
        x = lambda: r.randrange(self.w) if r.random() < .96 else r.choice(far)
        y = lambda: r.randrange(self.h) if r.random() < .96 else r.choice(far)
        k = r.choice(["selstart", "seltarget", "seltarget", "selcopy",
                      "selcopy", "selreset"])
        if k == "selreset":
            if r.random() < .4:
                self.add(k, "C12", "C12")
        elif k == "selcopy":
            self.add(k, "C12")
        elif k == "selstart":
            self.add("selstart %d %d" % (x(), y()), "C12", "C12")
            if r.random() < .7:
                self.add("seltarget %d %d" % (x(), y()), "C12", "C12")
        else:
            self.add("seltarget %d %d" % (x(), y()), "C12", "C12")

    # ---- control functions
    def esc(self, s):
        return b"\x1b" + s.encode("latin-1")

    def c1(self, c):
        """a C1 control (given by its 7-bit final) in one of its forms"""
        r = self.r
        if self.enc == "7":
            return b"\x1b" + bytes([c])
        if r.random() < .7:
            return b"\x1b" + bytes([c])
        b = c + 0x40
        return bytes([b]) if self.enc == "8" else utf8(b)

    def csi(self, final, params=(), pre=""):
        r = self.r
        if final in "ABCDEFGHIJKLMPSTXZ@`adefgn" and r.random() < .05:
            # more parameters than the function has
            params = list(params) + [r.choice([None, 0, 1, 2, 3, 9])
                                     for _ in range(r.choice([1, 1, 2, 4]))]
        p = ";".join("" if x is None else str(x) for x in params)
        return self.c1(0x5b) + (pre + p + final).encode("latin-1")

    def par(self):
        r = self.r
        return r.choice([None, self.num(), self.num(), self.num()])

    def enc_char(self, c):
        if self.enc == "utf8":
            return utf8(c)
        return bytes([c & 0xff])

    def v_text(self):
        r = self.r
        n = r.choice([1, 1, 2, 3, self.w, self.w + 1])
        b = b""
        for _ in range(min(n, 24)):
            p = r.random()
            c = (32 if p < .08 else
                 ord(self.letter()) if p < .75 or self.enc != "utf8" else
                 r.choice(WIDE) if p < .87 else r.choice(NARROW) if p < .94
                 else r.choice(ZERO) if p < .97 else anychar(r))
            b += self.enc_char(c)
        self.inp(b, "C04")

    def v_ascii(self):
        self.inp("".join(self.letter() for _ in
                         range(self.r.choice([1, 2, 4]))))

    def v_fill(self):
        b = b""
        for y in range(self.h):
            b += b"\x1b[%d;1H" % (y + 1)
            b += "".join(self.letter() for _ in range(self.w)).encode()
        self.inp(b)
        self.inp(b"\x1b[%d;%dH" % (self.r.randrange(self.h) + 1,
                                   self.r.randrange(self.w) + 1))

    def v_goto(self):
        self.inp(self.csi("H", [self.r.randrange(self.h) + 1,
                                self.r.randrange(self.w) + 1]), "C05")

    def v_c0(self):
        c = self.r.choice([8, 9, 10, 10, 11, 12, 13, 13])
        tags = {8: "C05", 9: "C09", 13: "C05"}.get(c, "C06 C05")
        self.inp(bytes([c]), tags)

    def v_c0other(self):
        self.inp(bytes([self.r.choice([0, 1, 7, 6, 16, 17, 19, 25, 26, 24, 28,
                                       31, 127])]), "C03")

    def v_motion(self):
        r = self.r
        f = r.choice("ABCDEFGHdef`a")
        if f in "Hf":
            b = self.csi(f, [self.par(), self.par()][:r.choice([0, 1, 2, 2])])
        else:
            b = self.csi(f, [self.par()][:r.choice([0, 1, 1, 1])])
        self.inp(b, "C05")

    def v_index(self):
        c = self.r.choice("DEM")
        self.inp(self.c1(ord(c)), "C05 C06")

    def v_erase(self):
        r = self.r
        f = r.choice("JJKKX")
        if f == "X":
            self.inp(self.csi("X", [self.par()]), "C08")
        else:
            p = [[], [r.choice([None, 0, 1, 2, 2, 3])]][r.random() < .8]
            self.inp(self.csi(f, p, r.choice(["", "", "?"])), "C08")

    def v_insdel(self):
        self.inp(self.csi(self.r.choice("@PLM"), [self.par()]), "C06")

    def v_scroll(self):
        self.inp(self.csi(self.r.choice("ST"), [self.par()]), "C06")

    def v_margins(self):
        r = self.r
        a = r.randrange(0, self.h + 1)
        b = r.choice([r.randrange(0, self.h + 2), self.h, a + 1, a + 2])
        p = r.choice([[], [a], [a, b], [a, b], [a, b], [None, b]])
        self.inp(self.csi("r", p), "C05 C06", "C05 C06 C04")

    def v_tabs(self):
        r = self.r
        k = r.choice(["hts", "cbt", "cht", "tbc", "ht", "ht"])
        if k == "hts":
            self.inp(self.c1(ord("H")), "C09", "C09")
        elif k == "tbc":
            self.inp(self.csi("g", [r.choice([None, 0, 3, 3, 1, 2, 4,
                                              5, 13])]), "C09", "C09")
        elif k == "ht":
            self.inp(b"\t", "C09")
        else:
            self.inp(self.csi("Z" if k == "cbt" else "I", [self.par()]),
                     "C09")

    def v_mode(self, modes, tags, hist=""):
        r = self.r
        m = r.choice(modes)
        pre = ""
        if isinstance(m, str):
            pre, m = "?", int(m)
        self.inp(self.csi(r.choice("hhl"), [m], pre), tags, hist)

    def v_printmodes(self):
        self.v_mode([4, "7", "7", 20], "C04", "C04")

    def v_origin(self):
        self.v_mode(["6"], "C05", "C05")

    def v_lookmodes(self):
        self.v_mode(["5", "25"], "C14", "C14")

    def v_altmodes(self):
        self.v_mode(["47", "1047", "1048", "1049"], "C11", "C11")

    def v_keymodes(self):
        self.v_mode(["1", 20, 2, "8"], "C18", "C18")

    def v_keypad(self):
        self.inp(self.esc(self.r.choice("=>")), "C18", "C18")

    def v_echo(self):
        self.v_mode([12], "C17", "C17")

    def v_mousemodes(self):
        self.v_mode(["9", "1002", "1003", "1006", "1016", "1000", "1005"],
                    "C19", "C19")

    def v_modelist(self):
        r = self.r
        n = r.randrange(2, 6)
        if r.random() < .5:
            p = [r.choice([1, 5, 6, 7, 25, 47, 1047, 1048, 1049, 9, 1002, 1003,
                           1006, 1016, 42, 8, 3, 2004, None]) for _ in range(n)]
            self.inp(self.csi(r.choice("hl"), p, "?"), "C15 C03",
                     "C15 C11 C19 C03")
        else:
            p = [r.choice([2, 4, 12, 20, 3, None]) for _ in range(n)]
            self.inp(self.csi(r.choice("hl"), p), "C15 C03", "C15 C03")

    def v_sgr(self):
        r = self.r
        p = []
        for _ in range(r.choice([0, 1, 1, 1, 2, 3, 6])):
            k = r.random()
            if k < .3:
                p.append(r.choice([0, 1, 3, 4, 5, 7, 22, 23, 24, 25, 27, 39,
                                   49]))
            elif k < .6:
                p.append(r.choice([30, 40, 90, 100]) + r.randrange(8))
            elif k < .75:
                p += [r.choice([38, 48]), 5, r.choice([
                    r.randrange(16), r.randrange(16, 232),
                    r.randrange(232, 256), 15, 16, 231, 232, 255])]
            elif k < .88:
                p += [r.choice([38, 48]), 2] + [r.choice([0, 1, 127, 255, 256,
                                                          r.randrange(256)])
                                                for _ in range(3)]
            elif k < .95:
                p.append(r.choice([2, 6, 8, 9, 10, 20, 21, 26, 28, 29, 37, 47,
                                   50, 89, 98, 99, 108]))
            else:
                p += [r.choice([38, 48]), r.choice([5, 2, 1])]
        if r.random() < .12:
            # empty parameters among others
            for _ in range(r.choice([1, 1, 2])):
                p.insert(r.choice([0, 0, r.randrange(len(p) + 1)]), None)
        self.inp(self.csi("m", p), "C14", "C14")
        if r.random() < .8:
            self.inp(self.letter(), "C14")

    def v_spaces(self):
        r = self.r
        self.inp(self.csi("m", [r.choice([0, 1, 3, 4, 5, 7, 24, 27])]), "C14",
                 "C14")
        self.inp(r.choice([b" ", b"A", b" B", b"A ", b"  "]), "C04")

    def v_sgrlong(self):
        r = self.r
        p = [r.choice([0, 1, 4, 7, 31, 42, 95, 106, 22, 39]) for _ in
             range(r.randrange(10, 17))]
        p += r.choice([[38, 5, 100], [48, 2, 1, 2, 3], [48], [38, 5], [32]])
        self.inp(self.csi("m", p), "C14 C03", "C14 C03")
        self.inp(self.letter(), "C14")

    def v_palette(self):
        r = self.r
        self.add("pal " + r.choice(["solarized", "solarized-black",
                                    "solarized-white", "soft-black",
                                    "base16-dark", "base16-light",
                                    "vga", "custom", "nonsense"]),
                 "C14", "C14")

    def v_custompal(self):
        r = self.r
        self.add("cpal " + " ".join(str(r.randrange(256)) for _ in range(54)),
                 "C14", "C14")

    def v_palsave(self):
        """colours that are saved are indices into the palette"""
        r = self.r
        self.inp(self.csi("m", [r.choice([0, 1]), 30 + r.randrange(8),
                                40 + r.randrange(8)]), "C14 C15", "C14 C15")
        self.inp(self.esc("7"), "C15", "C15")
        if r.random() < .5:
            self.v_sgr()
        r.choice([self.v_palette, self.v_custompal])()
        if r.random() < .5:
            self.v_sgr()
        self.inp(self.esc("8"), "C15", "C15")
        r.choice([self.v_erase, lambda: self.inp(self.letter(), "C14"),
                  lambda: self.inp(self.csi("J", [2]), "C14 C15")])()

    def v_cutosc(self):
        """characters cut short in a string for the application"""
        r = self.r
        b = b"\x1b]2;"
        for _ in range(r.randrange(1, 4)):
            b += utf8(r.choice(WIDE + NARROW))[:-1]
            b += r.choice([b"x", b"", bytes([r.choice([0xc3, 0xe2, 0xff])]),
                           utf8(r.choice(WIDE + NARROW))])
        self.inp(b + b"y\x07", "C02", "C02")

    def v_save(self):
        self.inp(self.esc(self.r.choice("77888")), "C15", "C15")

    def v_saves(self):
        """several saves and restores with changes in between"""
        r = self.r
        what = [self.v_shift, self.v_shift, self.v_charset, self.v_origin,
                self.v_sgr, self.v_goto, self.v_printmodes, self.v_margins,
                lambda: self.inp(self.esc(r.choice("~}|no")), "C16", "C16")]
        if r.random() < .6:
            what = r.sample(what, 2)
        for _ in range(r.randrange(2, 5)):
            for _ in range(r.choice([1, 1, 2, 3])):
                r.choice(what)()
            self.inp(self.esc(r.choice("778")), "C15", "C15")
        self.inp(self.esc("8"), "C15", "C15")
        self.inp(b"q" + self.enc_char(r.choice([0xe9, 0xf1, 0xa1])), "C15")

    def v_save1048(self):
        self.v_mode(["1048"], "C15 C11", "C15 C11")

    def v_reset(self):
        r = self.r
        k = r.choice(["ris", "decstr", "vreset", "vhard", "gt"])
        if k == "ris":
            self.inp(self.esc("c"), "C15", "C15")
            self.enc = "utf8"
        elif k == "decstr":
            self.inp(b"\x1b[!p", "C15", "C15")
            self.enc = "utf8"
        elif k == "gt":
            self.inp(b"\x1b[>p", "C15", "C15")
            self.enc = "utf8"
        else:
            self.add(k, "C15", "C15")
            self.enc = "utf8"

    def v_charset(self):
        r = self.r
        f = r.choice("BBA00<<4C5RQKYE6ZH7=X")
        self.inp(self.esc(r.choice("()*+") + f), "C16", "C16")

    def v_shift(self):
        r = self.r
        k = r.choice(["\x0e", "\x0f", "n", "o", "~", "}", "|", "N", "O"])
        if k < " ":
            self.inp(k, "C16", "C16")
        elif k in "NO":
            self.inp(self.c1(ord(k)), "C16", "C16")
        else:
            self.inp(self.esc(k), "C16", "C16")

    def v_graphic(self):
        """characters of GL and GR"""
        r = self.r
        b = b""
        for _ in range(r.choice([1, 1, 2, 3])):
            c = r.choice([r.randrange(32, 127), r.randrange(160, 256), 32, 127,
                          160, 255, 33, 126, 161, 254,
                          r.randrange(0x5f, 0x7f)])
            if r.random() < .1:
                c = r.choice(NARROW + WIDE[:3])
            b += self.enc_char(c)
        self.inp(b, "C16")

    def v_compat(self):
        r = self.r
        k = r.choice([61, 61, 62, 63, 64, 62, 60, 65, None])
        p = [k]
        if r.random() < .5:
            p.append(r.choice([0, 1, 2, 3]))
        self.inp(b"\x1b[" + ";".join("" if x is None else str(x)
                                     for x in p).encode() + b'"p',
                 "C16", "C16")
        self.enc = "7" if k == 61 else "8" if k in (62, 63, 64) else "utf8"

    def v_nrcm(self):
        self.v_mode(["42"], "C16", "C16")

    def v_c1mode(self):
        self.inp(self.esc(" " + self.r.choice("FG")), "C16", "C16")

    def v_rawbytes(self):
        """any bytes, without regard to the encoding"""
        r = self.r
        n = r.randrange(1, 6)
        self.inp(bytes(r.choice([r.randrange(256), r.randrange(128, 256),
                                 r.randrange(32, 127)]) for _ in range(n)),
                 "C02 C16", "C02 C16")
        self.inp(b"\x18")

    def v_utf8(self):
        r = self.r
        b = b""
        for _ in range(r.randrange(1, 4)):
            k = r.random()
            if k < .35:
                b += utf8(r.choice(NARROW + WIDE) if r.random() < .5 else
                          anychar(r))
            elif k < .45:
                b += utf8(r.choice([0xff, 0x100, 0x7f, 0x2503, 0xff60,
                                    0x1f64f, 0x20001, 0x2192]))
            elif k < .55:
                b += utf8(r.choice(WIDE + NARROW))[:-1]
            elif k < .65:
                b += bytes([r.randrange(0x80, 0xc0)])
            elif k < .8:
                # overlong forms
                c = r.choice([0x1b, 0x0a, 0x41, 0x2f, 0x7f, 0x9b, 0xe4, 0x7ff])
                m = r.choice([2, 3, 4])
                if m == 2:
                    c &= 0x7f
                    b += bytes([0xc0 | c >> 6, 0x80 | c & 63])
                elif m == 3:
                    c &= 0x7ff
                    b += bytes([0xe0, 0x80 | c >> 6, 0x80 | c & 63])
                else:
                    b += bytes([0xf0, 0x80, 0x80 | c >> 6, 0x80 | c & 63])
            elif k < .9:
                b += bytes([r.choice([0xc0, 0xc1, 0xf5, 0xf8, 0xfc, 0xfe, 0xff,
                                      0xe2, 0xf0, 0xc3])])
                b += bytes([r.choice([0x41, 0x80, 0x9f, 0xc3, 0xe2, 0x20])])
            else:
                b += self.letter().encode()
        self.inp(b, "C02", "C02")
        if r.random() < .7:
            self.inp(self.letter(), "C02")

    def v_request(self):
        r = self.r
        k = r.randrange(11)
        ns = [r.choice([None, 0, 0, 1, 5, 6]) for _ in range(r.choice(
            [2, 2, 3, 16, 17]))]
        self.inp([self.csi("c", ns, r.choice(["", ">"])), self.csi("n", ns),
                  self.csi("c"), self.csi("c", [0]), self.csi("c", (), ">"),
                  self.csi("n", [5]), self.csi("n", [6]), self.c1(ord("Z")),
                  b"\x05", self.csi("n", [r.choice([None, 0, 7, 15])]),
                  self.csi("c", [1])][k], "C17")

    def v_requestmix(self):
        """requests with prefixes or intermediates they are not defined for"""
        r = self.r
        self.inp(self.csi(r.choice("cnRtuxp"), [r.choice([None, 5, 6, 0])],
                          r.choice(["", "?", "=", "<", ">"]))[:-1] +
                 r.choice([b"", b"$", b" ", b"!", b"'"]) +
                 r.choice([b"c", b"n", b"q", b"w"]), "C17 C03")

    def v_osc(self):
        r = self.r
        n = r.choice([0, 1, 3, 10, 125, 126, 127, 128, 130, 200])
        s = b""
        while n > 0:
            c = ord(self.letter())
            if r.random() < .1:
                c = r.choice(NARROW + WIDE + [0x300])
            if r.random() < .05:
                c = r.choice([1, 8, 10, 13, 31, 127, 32])
            s += self.enc_char(c)
            n -= len(self.enc_char(c))
        end = r.choice([b"\x07", b"\x07", b"\x1b\\", self.c1(0x5c), b"\x18",
                        b"\x1a"])
        if r.random() < .1:
            end = b"\x1b[1m"
        start = self.c1(0x5d)
        if r.random() < .8:
            self.inp(start + r.choice([b"", b"0;", b"2;", b"52;c;"]) + s + end,
                     "C20", "C20")
        else:
            # the callback may be changed in the middle
            k = r.randrange(len(s) + 1)
            self.inp(start + s[:k], "C20", "C20")
            if r.random() < .3:
                self.add("setosc %d" % r.randrange(2), "C20", "C20")
            self.inp(s[k:] + end, "C20", "C20")

    def v_oscshort(self):
        self.inp(self.c1(0x5d) + self.letter().encode() +
                 self.r.choice([b"\x07", b"\x1b\\"]), "C20", "C20")

    def v_string(self):
        """DCS, SOS, PM, APC: no effect"""
        r = self.r
        s = "".join(r.choice(list(LETTERS) + list("[]{}$;?!\x07\x0a\x0d\x7f"))
                    for _ in range(r.randrange(0, 9))).encode("latin-1")
        if r.random() < .5:
            # parameters and intermediates first
            s = "".join(r.choice(k) for k in (
                ["0123456789;"] * r.randrange(3) + ["<=>?"] * r.randrange(2) +
                [" !\"#$%&'()*+,-./"] * r.randrange(3) +
                ["0123456789;:"] * r.randrange(2))).encode() + \
                r.choice([b"", s])
        for _ in range(r.choice([0, 1, 1, 3])):
            k = r.randrange(len(s) + 1)
            s = s[:k] + bytes([r.choice([5, 5, 7, 8, 9, 10, 11, 13, 14, 15, 0,
                                         25, 28, 31, 127])]) + s[k:]
        if r.random() < .2:
            s += utf8(r.choice(NARROW + WIDE)) if self.enc == "utf8" else b""
        self.inp(self.c1(r.choice([0x50, 0x58, 0x5e, 0x5f])) + s +
                 r.choice([b"\x1b\\", self.c1(0x5c), b"\x18", b"\x1a"]),
                 "C03", "C03")

    def v_ctlseq(self):
        """a control character within a sequence: takes effect at once and
        disturbs nothing"""
        r = self.r
        s = r.choice([b"\x1b[5n", b"\x1b[6n", b"\x1b[c", b"\x1b[>0c", b"\x1bZ",
                      b"\x1b[2C", b"\x1b[1;2H", b"\x1b[31m", b"\x1b(0",
                      b"\x1b[1 p", b"\x1b[1$p", b"\x1b[1:2m", b"\x1b[!p",
                      b"\x1b[1<2m", b"\x1b[1$2m", b"\x1b#8", b"\x1b[?7h"])
        for _ in range(r.choice([1, 1, 2])):
            k = r.randrange(1, len(s))
            s = s[:k] + bytes([r.choice([5, 5, 8, 9, 10, 13, 14, 15, 0, 25,
                                         127])]) + s[k:]
        self.inp(s, "C03", "C03")

    def v_junkseq(self):
        """sequences with anything in them, also embedded controls"""
        r = self.r
        b = bytearray(self.c1(r.choice([0x5b, 0x5b, 0x5b])))
        for _ in range(r.randrange(0, 6)):
            b += r.choice([b";", b"1", b"2", b"9", b":", b"?", b">", b"!",
                           b"$", b" ", b"'", b"0", b"4", b"\x0a", b"\x08",
                           b"\x0d", b"\x7f", b"12", b"99999999", b"<", b"#"])
        b += bytes([r.choice(b"ABCDEFGHIJKLMPSTXZ@`abcdefghilmnpqrstuvwxyz~{"
                             b"|}\x18\x1a\x1b")])
        self.inp(bytes(b), "C03", "C03")
        if b[-1] == 0x1b:
            self.inp("[D", "C03", "C03")
        if r.random() < .5:
            self.inp(self.letter(), "C03")

    def v_junkesc(self):
        r = self.r
        b = b"\x1b"
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            b += bytes([r.choice(b" !\"#$%&'()*+,-./")])
        b += r.choice([b"", b"\x0a", b"\x08", b"\x7f"])
        b += bytes([r.choice([x for x in range(0x30, 0x7f)
                              if chr(x) not in "[]PX^_"])])
        self.inp(b, "C03", "C03")
        if b[-1:] == b"c":
            self.enc = "utf8"
        if r.random() < .5:
            self.inp(self.letter(), "C03")

    def v_manyparams(self):
        r = self.r
        p = [r.choice([None, 1, 2, 3, 0]) for _ in range(r.randrange(14, 20))]
        self.inp(self.csi(r.choice("HrmhABK"), p, r.choice(["", "", "?"])),
                 "C03", "C03 C15")

    def v_abort(self):
        r = self.r
        part = r.choice([b"\x1b[", b"\x1b[1;", b"\x1b[?", b"\x1b(", b"\x1b",
                         b"\x1b]ab", b"\x1bPab", b"\x1b^x", b"\x1b[1 ",
                         b"\x1b[1;2:", b"\x1b[<"])
        self.inp(part, "C03", "C03")
        self.inp(r.choice([b"\x18", b"\x1a", b"\x1b[A", b"\x1bD",
                           utf8(0x84) if self.enc == "utf8" else b"\x1bD"]),
                 "C03", "C03")
        self.inp(self.letter(), "C03")

    def v_everyseq(self):
        """one of all control functions with plain parameters"""
        r = self.r
        k = r.choice([self.v_motion, self.v_erase, self.v_insdel,
                      self.v_scroll, self.v_tabs, self.v_index, self.v_c0,
                      self.v_margins, self.v_sgr, self.v_save, self.v_request,
                      self.v_charset, self.v_shift, self.v_printmodes,
                      self.v_origin, self.v_altmodes, self.v_lookmodes,
                      self.v_oscshort, self.v_string])
        n = len(self.ops)
        k()
        # what the sequence does belongs to its property, that it is
        # recognised to this one
        for i in range(n, len(self.ops)):
            l, t, h = self.ops[i]
            self.ops[i] = (l, t | {"C03"}, h | {"C03"})

    KEYS = (list(range(65288, 65292)) + [65301, 65307, 65293, 65421, 65417,
            65056, 65384, 65379, 65535, 65376, 65365, 65434, 65366, 65435,
            65362, 65431, 65364, 65433, 65363, 65432, 65361, 65430, 65360,
            65429, 65367, 65436, 65438, 65453, 65452, 65439, 65454, 65455,
            65450, 65451, 65408, 65437] + list(range(65456, 65466)) +
            list(range(65425, 65429)) + list(range(65469, 65491)) + [65299, 65300])

    def v_key(self):
        r = self.r
        mods = r.choice([0, 0, 0, 1, 4, 8, 5, 12, 9, 13, 2, 16, 24])
        k = r.random()
        if k < .45:
            sym = r.choice(self.KEYS)
            uni = r.choice([-1, -1, 0x41])
            asc = 0
        elif k < .75:
            sym = r.choice(list(range(32, 127)))
            asc = r.choice([0, sym, sym])
            uni = sym
        elif k < .9:
            # a key of another layout
            uni = r.choice(NARROW + WIDE + [0xe4, 0xff, 0x100, 0x80, 0xa0])
            sym = 0x1000000 + uni if r.random() < .5 else uni
            asc = r.choice([0, 0, 97, 50])
        else:
            sym = r.choice([65505, 65507, 65513, 65027, 0xfe50, 65406, 65300])
            uni = -1
            asc = 0
        self.add("key %d %d %d %d" % (sym, asc, mods, uni), "C18", "C18")

    def v_backspace(self):
        self.add("bs %d" % self.r.randrange(2), "C18", "C18")

    def v_mouse(self):
        r = self.r
        big = [222, 223, 224, 300, 94, 95, 12345678, 23456789]
        if r.random() < .1:
            big = big[-2:]
        x = r.choice([r.randrange(self.w)] * 3 + [0] + big)
        y = r.choice([r.randrange(self.h)] * 3 + [0] + big)
        ev = r.choice([1, 2, 4, 4])
        if r.random() < .3 and self.ops[-1][0].startswith("mouse"):
            # the same cell again
            f = self.ops[-1][0].split()
            x, y = int(f[1]), int(f[2])
        self.add("mouse %d %d %d %d %d %d %d" %
                 (x, y, x * 8 + r.randrange(8), y * 16 + r.randrange(16),
                  r.choice([0, 1, 2, 4, 5]), ev,
                  r.choice([0, 0, 4, 8, 16, 28])), "C19", "C19")

    def v_mcb(self):
        self.add("setmcb %d" % self.r.randrange(2), "C19", "C19")

    def v_mouseagain(self):
        """the same move before and after something that may forget it"""
        r = self.r
        on = r.choice([b"\x1b[?1003h\x1b[?1006h", b"\x1b[?1003;1006h"])
        x, y = r.randrange(self.w), r.randrange(self.h)
        self.inp(on, "C19", "C19")
        for k in range(r.choice([2, 2, 3])):
            if k:
                q = r.random()
                if q < .5:
                    self.v_reset()
                    self.inp(on, "C19", "C19")
                elif q < .8:
                    self.v_mousemodes()
                    self.inp(on, "C19", "C19")
                else:
                    self.v_mouse()
            self.add("mouse %d %d %d %d 0 4 0" % (x, y, x * 8, y * 16), "C19",
                     "C19")

    def v_cutreset(self):
        """a reset in the middle of a sequence or character"""
        r = self.r
        self.inp(r.choice([b"\x1b", b"\x1b[", b"\x1b[3", b"\x1b[1;2", b"\x1b(",
                           b"\x1b[?", b"\x1b]a", b"\x1bPx", b"\x1b^x", b"\xc3",
                           b"\xe4\xb8", b"\xf0\x9f\x98", b"\x1bN", b"\x1b[1 "]))
        self.add(r.choice(["vreset", "vhard"]), "C15", "C15")
        self.enc = "utf8"
        self.inp(r.choice([b"m", b"A", b"\xa9q", b"5nq", b"\x80\x80q", b"0a",
                           b"\x07q", b"2J", b"\xc3\xa9"]), "C15")

    def v_hibit(self):
        """the eighth bit is set here and there in 7-bit mode"""
        r = self.r
        if self.enc != "7":
            if r.random() < .7:
                return
            self.inp(b'\x1b[61"p', "C16", "C16")
            self.enc = "7"
        n = len(self.ops)
        for _ in range(r.randrange(1, 4)):
            r.choice([self.v_text, self.v_osc, self.v_string, self.v_motion,
                      self.v_charset, self.v_shift, self.v_goto, self.v_sgr,
                      self.v_graphic, self.v_request])()
        for i in range(n, len(self.ops)):
            o, t, h = self.ops[i]
            if o.startswith("in "):
                b = bytes.fromhex(o[3:])
                q = r.choice([.05, .3, 1])
                b = bytes(x | 128 if r.random() < q else x for x in b)
                self.ops[i] = ("in " + b.hex(), t | {"C16"}, h | {"C16"})

    def v_probe(self):
        """make hidden state visible"""
        self.inp(b"x\x1b[6n\x1b[L\ty")

    # ---- profiles
    def run(self, weights, n):
        names = [k for k, _ in weights]
        ws = [v for _, v in weights]
        limit = n * 3
        while n > 0 and len(self.ops) < limit + 60:
            getattr(self, self.r.choices(names, ws)[0])()
            n -= 1
        return self.ops


def W(**kw):
    return list(kw.items())


CTX_S = dict(s_write=3, s_text=2, s_goto=3, s_move=2, s_margins=1,
             s_printflags=1, s_origin=.5, s_alt=.7, s_newline=1, s_scroll=1,
             s_insdel=1, s_erase=1, s_tab=.7, s_sb=.5, s_maxsb=.5, s_resize=.6,
             s_defattr=.4, s_reset=.2, s_lookflags=.3, s_fixflag=.2,
             s_sel=.5, s_clearsb=.1)
CTX_V = dict(v_text=3, v_ascii=2, v_goto=3, v_c0=1, v_motion=2, v_index=1,
             v_erase=1, v_insdel=1, v_scroll=.7, v_margins=1, v_tabs=.7,
             v_printmodes=.7, v_origin=.6, v_altmodes=.6, v_sgr=1,
             v_lookmodes=.3, v_save=.5, v_reset=.25, v_charset=.4, v_shift=.4,
             v_graphic=.3, v_request=.5, v_osc=.2, v_key=.5, v_mouse=.2,
             v_mousemodes=.2, s_resize=.5, s_sb=.3, s_maxsb=.3, s_sel=.3,
             v_cutreset=.1)


def mix(base, factor, **kw):
    d = {k: v * factor for k, v in base.items()}
    d.update(kw)
    return d


# name -> list of (share, vte, weights, options)
PROFILES = {
    "C02": [(1, 1, mix(CTX_V, .08, v_utf8=12, v_rawbytes=1, v_goto=2,
                       v_cutosc=1.5), {})],
    "C03": [(1, 1, mix(CTX_V, .1, v_junkseq=6, v_junkesc=3, v_string=2,
                       v_abort=3, v_manyparams=1.5, v_everyseq=8,
                       v_modelist=1, v_c0other=1, v_compat=.3,
                       v_ctlseq=2, v_requestmix=1.5), {"fill": 1})],
    "C04": [(1, 0, mix(CTX_S, .15, s_write=8, s_text=4, s_printflags=2,
                       s_margins=1, s_goto=3, s_origin=.2), {}),
            (1, 1, mix(CTX_V, .1, v_text=8, v_printmodes=2, v_margins=1,
                       v_goto=3, v_c0=1), {})],
    "C05": [(1, 0, mix(CTX_S, .1, s_move=12, s_margins=2, s_origin=1.5,
                       s_goto=3), {"fill": 1}),
            (1, 1, mix(CTX_V, .1, v_motion=12, v_index=2, v_c0=2, v_margins=2,
                       v_origin=1.5, v_goto=3), {"fill": 1})],
    "C06": [(1, 0, mix(CTX_S, .15, s_scroll=5, s_insdel=8, s_newline=2,
                       s_margins=3, s_goto=5, s_move=2, s_fill=1,
                       s_origin=.7), {"fill": 1}),
            (1, 1, mix(CTX_V, .1, v_scroll=5, v_insdel=8, v_margins=3,
                       v_goto=5, v_index=4, v_fill=1, v_origin=.7),
             {"fill": 1})],
    "C07": [(3, 0, mix(CTX_S, .1, s_sb=8, s_maxsb=2, s_scrollup=5, s_text=3,
                       s_newline=4, s_fixflag=1.5, s_clearsb=.5, s_alt=.7,
                       s_resize=1, s_sel=.5), {"sb": 1}),
            (1, 1, mix(CTX_V, .1, s_sb=8, s_maxsb=2, v_text=4, v_c0=4,
                       s_fixflag=1.5, s_resize=1, v_altmodes=1), {"sb": 1})],
    "C08": [(1, 0, mix(CTX_S, .1, s_erase=10, s_goto=6, s_fill=1.5,
                       s_defattr=1, s_margins=1, s_origin=1), {"fill": 1}),
            (1, 1, mix(CTX_V, .1, v_erase=10, v_goto=6, v_fill=1.5, v_sgr=1,
                       s_write=1, s_fill=.3, v_margins=1, v_origin=1), {"fill": 1})],
    "C09": [(1, 0, mix(CTX_S, .1, s_tab=10, s_tabrich=1, s_goto=4,
                       s_resize=.5, s_reset=.2), {"wide": 1}),
            (1, 1, mix(CTX_V, .1, v_tabs=10, v_goto=4, s_resize=.5),
             {"wide": 1})],
    "C10": [(3, 0, mix(CTX_S, .6, s_resize=8, s_text=5, s_alt=1.5, s_defattr=1,
                       s_sel=1, s_fill=1, s_sb=1, s_maxsb=.6), {"sb": .5}),
            (1, 1, mix(CTX_V, .5, s_resize=8, v_altmodes=1.5, v_fill=1,
                       v_tabs=1.5), {"sb": .5})],
    "C11": [(1, 0, mix(CTX_S, .8, s_alt=5, s_fill=1, s_resize=1), {"sb": .5}),
            (2, 1, mix(CTX_V, .8, v_altmodes=6, v_fill=1, v_margins=1,
                       v_origin=1, s_write=1), {"sb": .5})],
    "C12": [(3, 0, mix(CTX_S, .1, s_sel=10, s_text=3, s_scrollup=3,
                       s_newline=2, s_scroll=1.5, s_margins=.7, s_sb=2,
                       s_maxsb=.5, s_fill=.7, s_resize=.5, s_goto=2,
                       s_clearsb=.2, s_erase=.7, s_fourbytes=.3), {"sb": .7}),
            (1, 1, mix(CTX_V, .1, s_sel=8, v_text=5, v_c0=3, s_sb=2,
                       v_scroll=1, s_maxsb=.5, v_margins=.5,
                       v_fourbytes=.3), {"sb": .7})],
    "C14": [(3, 1, mix(CTX_V, .1, v_sgr=10, v_sgrlong=1.5, v_palette=1,
                       v_custompal=.6, v_erase=1, v_insdel=1, v_lookmodes=1,
                       v_save=.3, v_palsave=.7), {}),
            (1, 0, mix(CTX_S, .5, s_defattr=3, s_lookflags=2, s_write=6), {})],
    "C15": [(1, 1, mix(CTX_V, .6, v_save=5, v_saves=1.5, v_reset=3, v_save1048=2,
                       v_origin=2, v_margins=1.5, v_printmodes=2, v_shift=2,
                       v_charset=2, v_graphic=2, v_sgr=2, v_mousemodes=1,
                       v_keymodes=1, v_modelist=1, v_probe=1.5, v_compat=.4,
                       s_resize=1, v_mouse=1, v_altmodes=1, v_echo=.2,
                       v_cutreset=1, v_mouseagain=.7, v_palsave=.5), {})],
    "C16": [(1, 1, mix(CTX_V, .08, v_charset=6, v_shift=8, v_graphic=14,
                       v_compat=.8, v_rawbytes=.7, v_save=.7, v_nrcm=.2,
                       v_c1mode=.4, v_reset=.4, v_key=.5,
                       v_hibit=1), {})],
    "C17": [(1, 1, mix(CTX_V, .3, v_request=8, v_requestmix=2, v_echo=1,
                       v_key=3, v_mouse=1, v_mousemodes=1, v_origin=1,
                       v_margins=1, v_c1mode=.5, v_compat=.3,
                       v_ctlseq=1.5, v_string=1, v_junkseq=1), {})],
    "C18": [(1, 1, mix(CTX_V, .05, v_key=14, v_keymodes=2, v_keypad=1.5,
                       v_backspace=.7, v_compat=.7, v_c1mode=.4, v_echo=.4,
                       v_reset=.4, v_nrcm=.1), {})],
    "C19": [(1, 1, mix(CTX_V, .05, v_mouse=12, v_mousemodes=6, v_mcb=.4,
                       v_reset=.5, v_modelist=.7, v_echo=.3,
                       v_mouseagain=1), {})],
    "C20": [(1, 1, mix(CTX_V, .1, v_osc=10, v_oscshort=4, v_string=1,
                       v_abort=.5, v_compat=.2, v_ascii=2), {})],
    "C27": [(3, 0, mix(CTX_S, .3, s_drawn=6, s_lookflags=3, s_sel=2, s_goto=2,
                       s_sb=1.5, s_newline=1.5, s_alt=.5, s_resize=1), {"sb": .6}),
            (2, 1, mix(CTX_V, .3, v_sgr=4, v_spaces=3, v_lookmodes=3, s_sel=1.5,
                       v_c0=1.5, s_sb=1), {"sb": .6})],
}
PROFILES["ANY"] = [(1, 0, CTX_S, {"sb": .5}), (2, 1, CTX_V, {"sb": .5})]


FEATURES = sorted({k for ps in PROFILES.values() for p in ps if p[1]
                   for k in p[2]})


def focus(rng):
    """a profile with little but a few features"""
    return [(1, 1, mix(CTX_V, .03, **{
        k: 5 for k in rng.sample(FEATURES, rng.choice([1, 1, 2]))}), {})]


def script(profile, rng, length):
    parts = PROFILES[profile] if isinstance(profile, str) else profile
    _, vte, weights, opt = rng.choices(parts, [p[0] for p in parts])[0]
    if opt.get("wide"):
        w, h = rng.randrange(1, 40), rng.randrange(1, 4)
    elif rng.random() < .03:
        w, h = rng.choice([(80, 24), (132, 10), (40, 40)])
    else:
        w, h = rng.randrange(1, 11), rng.randrange(1, 8)
    g = G(rng, vte, w, h)
    if w * h > 100:
        length = min(length, 15)
    if rng.random() < opt.get("sb", .3):
        g.add("maxsb %d" % rng.choice([1, 2, 3, 5, 20]), "", "")
    if not vte and rng.random() < .6:
        g.add("setflags 2", "", "")
    if opt.get("fill") and w * h <= 100 and rng.random() < .8:
        g.v_fill() if vte else g.s_fill()
    return g.run(list(weights.items()), length)


def chunked(stream, rng, more=2):
    """the same bytes in one call, in single bytes and in random pieces, which
    can be empty"""
    n = len(stream)
    yield [stream]
    yield [stream[i:i + 1] for i in range(n)]
    for _ in range(more):
        cuts = sorted(rng.randrange(0, n + 1)
                      for _ in range(rng.randrange(1, 9)))
        yield [stream[a:b] for a, b in zip([0] + cuts, cuts + [n])]


# ------------------------------------------------------------ data structures

def array_script(r):
    """C30"""
    es = r.choice([1, 2, 3, 4, 4, 8, 12, 16, 40])
    cap = r.choice([0, 0, 1, 2, 3, 4, 5, 8, 13])
    lines = ["anew %d %d" % (es, cap)]
    cap = cap or 4
    n, sizes = 0, [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65]
    for _ in range(r.randrange(3, 40)):
        k = r.random()
        if r.random() < .08:
            lines.append("fail %d" % r.choice([1, 1, 2]))
        if k < .4:
            for _ in range(r.choice([1, 1, 1, 2, min(cap, 40), 20])):
                lines.append("apush %d" % r.randrange(256))
                n += 1
        elif k < .6:
            for _ in range(r.choice([1, 1, 2, 5, min(n, 60)])):
                lines.append("apop")
                n = max(0, n - 1)
        elif k < .9:
            n0 = n
            n = r.choice(sizes + [n, n + 1, n + 2, max(0, n - 1), n // 2,
                                  2 * n, cap, cap + 1, cap - 1,
                                  r.randrange(80)])
            n = min(n, 300)
            # more bytes than 8, 16 or 20 bits can count
            if r.random() < .06:
                b = r.choice([1 << 8, 1 << 16, 1 << 16, 3 << 16, 1 << 20])
                n = max(0, n0 + b // es + r.choice([-1, 0, 1, 2, 100]))
            lines.append("aresize %d" % n)
        elif k < .95:
            lines.append("ahuge %d" % r.randrange(6))
        elif k < .97:
            lines.append("apushnull")
        else:
            n = 0
            lines.append(r.choice(["afree", "anew 0 3", "anew %d %d" % (
                es, r.randrange(6))]))
        cap = max(cap, n)
    return lines


def ring_script(r):
    """sizes around the borders of the buffer"""
    lines = []
    size, used = 0, 0
    for _ in range(r.randrange(3, 30)):
        k = r.random()
        room = size - used
        if k < .5:
            n = r.choice([0, 1, r.randrange(1, 5000), room, room + 1,
                          max(0, room - 1), r.randrange(1, 60),
                          r.choice([4095, 4096, 4097, 8192, 12000])])
            if used + n > 60000:
                continue
            if r.random() < .08:
                lines.append("fail 1")
                fails = n > room
            else:
                fails = False
            lines.append("push %d %d" % (r.randrange(251), n))
            if not fails:
                while used + n > size:
                    size = max(4096, size * 2)
                used += n
        elif k < .85:
            n = r.choice([0, 1, used, used + 1, max(0, used - 1),
                          r.randrange(0, used + 2), r.randrange(0, 5000),
                          used // 2, r.randrange(0, 100)])
            lines.append("pull %d" % n)
            used -= min(used, n)
        elif k < .94:
            lines.append("copy %d" % r.choice(
                [0, 1, used, used + 5, max(0, used - 1),
                 r.randrange(0, used + 2)]))
        elif k < .96:
            lines.append("flush")
            used = 0
        elif k < .98:
            lines.append("clear")
            size = used = 0
        else:
            lines.append("hugepush %d" % r.choice([0, 1, used, used + 1,
                                                   4096, 1 << 40]))
    lines.append("copy 70000")
    return lines or ["flush"]


def htable_script(r):
    n = r.choice([2, 4, 6, 12, 30, 80, 250])
    top = (1 << 62) - 1
    style = r.randrange(6)
    ptrs = set()
    base = r.randrange(2, top)
    step = r.choice([1, 8, 16, 32, 4096])
    tries = 0
    while len(ptrs) < n and tries < 20 * n:
        tries += 1
        if style == 0:
            p = base + step * len(ptrs)
        elif style == 1:
            p = r.randrange(2, top)
        elif style == 2:
            p = 1 << r.randrange(1, 62)
        elif style == 3:
            p = base & r.randrange(2, top)
        elif style == 4:
            p = r.randrange(2, 4 * n + 2)
        else:
            p = r.choice([0x555555550000, 0x7f1200000000, 0x1000000]) + \
                16 * r.randrange(0, 4 * n)
        p &= top
        if p > 1:
            ptrs.add(p)
    ptrs = list(ptrs)
    r.shuffle(ptrs)
    hs = r.randrange(5)
    few = [r.randrange(top) for _ in range(r.randrange(1, 4))]

    def newhash(k):
        return (k if hs == 0 else r.randrange(top) if hs == 1 else
                r.choice(few) if hs == 2 else r.randrange(8) if hs == 3 else
                r.choice(few) ^ (1 << r.randrange(62)))
    keys, lines = [], []
    for i, p in enumerate(ptrs):
        if keys and r.random() < .15:
            k = r.choice(keys)
        else:
            k = (1000 + i, newhash(i))
            keys.append(k)
        lines.append("elem %d %d %d" % (p, k[0], k[1]))
    keys += [(7, newhash(7)), (8, few[0])]
    if r.random() < .3:
        # numbers or strings, which have their own hashes
        kind = r.choice([1, 2])
        sh = r.choice([0, 0, 3, 10, 16]) if kind == 1 else 0
        mul = r.choice([1, 1, 3]) << sh
        ks = {}
        for k, _ in keys:
            ks[k] = (r.randrange(0, 2 * n + 2) if r.random() < .8 else
                     r.randrange(1 << 13)) * mul
        keys = [(ks[k], 0) for k, _ in keys]
        lines = ["kind %d" % kind] + ["elem 0 %d 0" % ks[int(x.split()[2])]
                                      for x in lines]
    phase = .6
    for _ in range(r.randrange(5, 4 * n + 20)):
        if r.random() < .05:
            phase = r.choice([.2, .4, .6, .8])
        k = r.random()
        if k < .7:
            if r.random() < phase:
                if r.random() < .04:
                    lines.append("fail 1")
                lines.append("ins %d" % r.randrange(len(ptrs)))
            else:
                lines.append("rem %d %d" % r.choice(keys))
        elif k < .97:
            lines.append("find %d %d" % r.choice(keys))
        elif k < .995:
            lines.append("visit")
        else:
            lines.append("hclear")
    lines += ["find %d %d" % k for k in keys[:60]] + ["visit"]
    return lines


def symbol_script(r):
    lines = ["snew"]
    if r.random() < .05:
        lines = ["fail %d" % r.randrange(1, 4), "snew", "app 97 98", "sfree",
                 "snew"]
    chars = [r.choice([97, 98, 99, 32, 0, 0x301, 0x4e00, 0x10ffff, 0x7fffffff,
                       0x20000, 0xe9]) for _ in range(4)]
    # sequences with the same hash: (a, b) and (a + 1, b - 33)
    a, b = r.randrange(50, 90), r.randrange(100, 200)
    chars += [a, b, a + 1, b - 33, a + 2, b - 66]
    n = 0

    def sym():
        k = r.random()
        if n and k < .65:
            # long ones are wanted as well
            return "@%d" % (n - 1 if r.random() < .5 else r.randrange(n))
        return str(r.choice(chars) if k < .98 else -100000 - r.randrange(9999))
    for _ in range(r.choice([10, 30, 60, 120])):
        k = r.random()
        if k < .02:
            # long ones with the same hash
            m = r.randrange(0, 9)
            x = str(r.choice(chars))
            for j in range(m):
                lines.append("app %s %s" % (x, r.choice(chars)))
                x, n = "@%d" % n, n + 1
            for j in range(r.choice([2, 2, 3])):
                lines.append("app %s %s" % (x, a + j))
                lines.append("app @%d %s" % (n, b - 33 * j))
                n += 2
                lines.append("get @%d" % (n - 1))
        elif k < .6:
            if r.random() < .08:
                lines.append("fail %d%s" % (r.randrange(1, 4),
                                            r.choice(["", " 1"])))
            lines.append("app %s %s" % (sym(), r.choice(chars)
                                        if r.random() < .95 else -3))
            n += 1
        elif k < .8:
            lines.append("get " + sym())
        elif k < .88:
            lines.append("width " + sym())
        elif k < .9:
            lines.append("make %s" % r.choice(chars + [-1, -1000]))
        elif k < .95:
            lines.append("enc %d" % r.choice([anychar(r), r.randrange(-5, 1 << 21),
                                              0x7fffffff]))
        elif k < .99:
            lines.append("encall " + " ".join(
                str(r.choice([anychar(r), 0xd800, 0xffff]))
                for _ in range(r.randrange(0, 6))))
        elif r.random() < .1:
            lines += ["sfree", "snew"]
    lines += ["get @%d" % k for k in range(0, n, max(1, n // 20))]
    return lines


def pty_script(rng):
    """C24: PTYs on a bridge"""
    n = rng.choice([1, 1, 1, 2, 2, 3])
    big = [1, 2, 3, 10, 100, 1000, 4095, 4096, 5000, 8192, 16382, 16383, 16384,
           16385, 20000, 32766, 32767, 40000, 60000]

    def amount():
        return rng.choice(big[:5]) if rng.random() < .4 else rng.choice(big)

    def world():
        p = rng.randrange(n)
        return rng.choices(["cw %d %d" % (p, amount()),
                            "cr %d %d" % (p, amount()),
                            "hup %d" % p, "reopen %d" % p],
                           [8, 8, 1, 2])[0]

    def fault():
        p = rng.randrange(n)
        return rng.choices([world(), "limit %d %d" % (p, rng.choice(
            [1, 2, 3, 100, 5000])), "intr", "flood %d %d" % (
                p, rng.choice([1, 100, 20000]))], [5, 5, 4, 1])[0]
    out = ["bridge"]
    for p in range(n):
        if rng.random() < .05:
            out.append("sysfail %d" % rng.randrange(1, 5))
            out.append("open %d" % p)
        if rng.random() < .05:
            out.append("fail 1")
            out.append("open %d" % p)
        out.append("open %d" % p)
        if rng.random() < .3:
            out += [world() for _ in range(rng.randrange(3))]
        if rng.random() < .95:
            out.append("add %d" % p)
    q = rng.choice([0, .2, .5])
    owed = None
    for _ in range(rng.choice([10, 25, 50])):
        x = rng.random()
        p = rng.randrange(n)
        if owed is not None and rng.random() < .6:
            op = "call %d" % owed
            owed = None
        elif x < .3:
            op = world()
        elif x < .5:
            op = "write %d %d" % (p, amount())
            if rng.random() < .05:
                out.append("fail 1")
            owed = p
        elif x < .85:
            op = "disp"
        elif x < .92:
            op = "call %d" % p
        elif x < .96:
            op = "direct %d" % p
        else:
            op = rng.choice(["close %d", "ref %d", "unref %d", "ref %d",
                             "remove %d", "add %d", "add %d", "open %d",
                             "unref %d"]) % p
        if op.split()[0] in ("disp", "call", "direct"):
            while rng.random() < q:
                out.append("at %d %s" % (rng.randrange(1, 7), fault()))
            if rng.random() < .1:
                out.append("echo %d %d" % (p, amount()))
        out.append(op)
    out += ["disp"] * rng.randrange(5)
    return out


def refs_fill(rng, lines, q=.5):
    """C25: uses objects between the other operations"""
    out = []
    for x in lines:
        if rng.random() < .1 and not x.startswith("fail") and "new" in x:
            out.append("fail %d%s" % (rng.randrange(1, 8),
                                      rng.choice(["", " 1"])))
            out.append(x)
        out.append(x)
        while rng.random() < q:
            k = rng.choice([0, 0, 1, 4, 4, 5, 8, 10])
            y = rng.random()
            if y < .35:
                if rng.random() < .15:
                    out.append("fail %d" % rng.randrange(1, 6))
                out.append("busy %d %d" % (k, rng.randrange(1 << 30)))
            elif k == 10 and y < .6:
                out.append("close 10")
            else:
                out.append("put %d %d" % (k, rng.randrange(33, 127)))
                out.append("see %d" % rng.choice([k, k, 0, 1, 4, 5]))
    for k in (0, 1, 4, 5, 8, 10):
        out.append("put %d %d" % (k, 65 + k))
        out.append("see %d" % k)
    return out


NULLS = 132


def null_script(k):
    """C29: call k without an object, alone and next to some"""
    if k >= NULLS - 2:
        return ["null 0 %d" % k]
    return ["null 0 %d" % k, "snew 0 6 4", "vnew 4 0", "tnew 8", "put 0 65",
            "null 0 %d" % k, "see 0", "put 4 66", "put 8 67",
            "null 0 %d" % k, "see 4", "see 8", "unref 4", "unref 0",
            "unref 8", "null 0 %d" % k]


def refs_script(rng):
    out = []
    for _ in range(rng.choice([6, 15, 40])):
        x = rng.random()
        if x < .05:
            out.append("null 0 %d" % rng.randrange(NULLS - 2))
        elif x < .15:
            out.append("snew %d %d %d" % (rng.randrange(3), rng.randrange(
                1, 30), rng.randrange(1, 20)))
        elif x < .35:
            out.append("vnew %d %d" % (rng.randrange(4, 7), rng.choice(
                [0, 0, 0, 1, 2, 4, 5])))
        elif x < .4:
            out.append("tnew 8")
        elif x < .45:
            out.append("pnew 10")
        else:
            out.append("%s %d" % (rng.choice(["ref", "unref", "unref"]),
                                  rng.choice([0, 0, 1, 2, 4, 4, 5, 6, 8, 8,
                                              10])))
    return refs_fill(rng, out)


FAULTY = ("resize", "new", "newline", "in", "scrollup", "pal", "cpal",
          "selcopy", "movedown", "maxsb", "write", "setflags")


def fault_script(rng):
    """C26: a script of another property with failing allocations"""
    prof = rng.choice(["ANY", "ANY", "C04", "C06", "C07", "C10", "C10", "C11",
                       "C12", "C14", "C15"])
    q = rng.choice([.1, .3, .7])
    out = []
    for o in script(prof, rng, 40):
        k = o[0].split()[0]
        if k == "new" and rng.random() < .4:
            out.append(("fail %d%s" % (rng.randrange(1, 30), rng.choice(
                ["", " 1"])), frozenset(), frozenset()))
            out.append(o)
        elif k != "new" and k in FAULTY and rng.random() < q:
            n = rng.choice([1, 1, 2, 3, rng.randrange(1, 13)])
            out.append(("fail %d%s" % (n, rng.choice(["", "", " 1"])),
                        frozenset(), frozenset()))
            # try it again later
            if k == "resize" and rng.random() < .5:
                out.append(o)
        out.append(o)
    return out


def wild_script(rng):
    """C29: anything in any order, with arguments from everywhere"""
    vte = rng.random() < .75
    w, h = rng.choice([(1, 1), (1, 2), (2, 1), (3, 2), (7, 5), (80, 24),
                       (79, 23), (81, 25), (500, 2), (2, 500), (132, 40),
                       (rng.randrange(1, 30), rng.randrange(1, 30))])
    g = G(rng, vte, w, h, rng.randrange(2), rng.randrange(2))
    none = frozenset()
    us = [0, 1, 2, w - 1, w, w + 1, h - 1, h, h + 1, 79, 80, 81, 23, 24, 25,
          127, 128, 129, 255, 256, 65535, 65536] + HUGE

    def u():
        return rng.choice(us) if rng.random() < .7 else rng.randrange(0, 100)

    def attr():
        return " ".join(str(rng.choice([0, 1, 2, 7, 15, 16, 17, 18, 100, 127,
                                        -1, -128])) for _ in range(2)) + \
            "".join(" %d" % rng.randrange(256) for _ in range(6)) + \
            "".join(" %d" % rng.randrange(2) for _ in range(6))
    ctl = [0, 5, 7, 8, 9, 10, 13, 14, 15, 24, 26, 27, 27, 27, 91, 91, 59, 59,
           63, 48, 49, 50, 57, 57, 93, 80, 88, 40, 41, 32, 33, 34, 36, 62, 127,
           109, 104, 108, 72, 114, 74, 75, 76, 77, 64, 65, 80, 83, 84, 103, 110,
           99, 112, 0x9b, 0x9d, 0x90, 0xc2, 0xe2, 0x80, 0xf0, 0xff, 65, 66]
    # modes of the terminal are not set behind its back
    mask = 32 if vte and rng.random() < .7 else 127
    kinds = ["noise"] * 4 + ["seq"] * 4 + ["api"] * 6 + ["known"] * 4
    if not vte:
        kinds = ["api"] * 3 + ["known"]
    names = [x for x in dir(G) if x.startswith("v_" if vte else "s_") and
             x not in ("v_mode", "s_flag", "s_resize")]
    for _ in range(rng.choice([10, 40, 120])):
        k = rng.choice(kinds)
        if k == "noise":
            n = rng.choice([1, 3, 20, 200])
            b = bytes(rng.choice(ctl) if rng.random() < .8 else
                      rng.randrange(256) for _ in range(n))
            g.ops.append(("in " + b.hex(), none, none))
        elif k == "seq":
            p = ";".join(str(rng.choice(us + [5, 6, 7, 12, 20, 25, 38, 47, 48,
                                              1047, 1048, 1049, 1002, 1003,
                                              1006, 1016, ""]))
                         for _ in range(rng.choice([0, 1, 1, 2, 3, 17])))
            b = b"\x1b[" + rng.choice([b"", b"", b"?", b">", b"!"]) + \
                p.encode() + bytes([rng.randrange(0x40, 0x7f)])
            g.ops.append(("in " + b.hex(), none, none))
        elif k == "known":
            getattr(g, rng.choice(names))()
        else:
            op = rng.choice([
                "resize %d %d" % (rng.choice([1, 2, w, w + 1, 79, 80, 81, 200,
                                              500, rng.randrange(1, 100)]),
                                  rng.choice([1, 2, h, h + 1, 23, 24, 25, 100,
                                              rng.randrange(1, 60)])),
                "margins %d %d" % (u(), u()), "maxsb %d" % rng.choice(
                    [0, 1, 2, 10, 1000]), "clearsb", "sbup %d" % u(),
                "sbdown %d" % u(), "sbpgup %d" % u(), "sbpgdown %d" % u(),
                "sbreset", "defattr " + attr(), "reset",
                "setflags %d" % (rng.randrange(128) & mask),
                "resetflags %d" % (rng.randrange(128) & mask), "settab", "rsttab",
                "rstall", "write %d %s" % (rng.choice(
                    [anychar(rng), 0, 32, 65, 0x4e00, 0x110000, 0x7fffffff,
                     0xd800, 0xffff]), attr()),
                "newline", "scrollup %d" % u(), "scrolldown %d" % u(),
                "moveto %d %d" % (u(), u()), "moveup %d %d" % (
                    u(), rng.randrange(2)), "movedown %d %d" % (
                    u(), rng.randrange(2)), "moveleft %d" % u(),
                "moveright %d" % u(), "lineend", "linehome", "tabr %d" % u(),
                "tabl %d" % u(), "inslines %d" % u(), "dellines %d" % u(),
                "inschars %d" % u(), "delchars %d" % u(), "erasecur",
                "erasechars %d" % u(), "ecte 1", "ecte 0", "ehtc 0", "ehtc 1",
                "eline 0", "estc 0", "ects 1", "escr 0", "selreset",
                "selstart %d %d" % (u(), u()), "seltarget %d %d" % (u(), u()),
                "selcopy", "selcopy", "selstart %d %d" % (
                    rng.randrange(w), rng.randrange(h))] + ([
                "key %d %d %d %d" % (rng.choice(G.KEYS + us), rng.choice(us),
                                     rng.randrange(64), rng.choice(
                                         us[:-6] + [-1, 0x20ac, 0x10ffff])),
                "mouse %d %d %d %d %d %d %d" % (u(), u(), u(), u(), rng.choice(
                    [0, 1, 2, 3, 4, 5, 255]), rng.choice([0, 1, 2, 3, 4, 8]),
                    rng.randrange(64)), "bs 1", "setosc 1",
                "setmcb 0", "vreset", "vhard", "pal %s" % rng.choice(
                    ["custom", "solarized", "", "x"]), "cpal"] if vte else []))
            if op.startswith("resize"):
                w, h = map(int, op.split()[1:])
                us[3:9] = [w - 1, w, w + 1, h - 1, h, h + 1]
                g.w, g.h = w, h
            g.ops.append((op, none, none))
    if vte and rng.random() < .4:
        # calls from inside of callbacks
        g.ops = [("react %d %d %s" % (rng.randrange(3), rng.choice([0, 0, 1]),
                                      x[0]), none, none)
                 if k and rng.random() < .25 and len(x[0]) < 4000 and
                 x[0].split()[0] not in ("new", "selcopy", "draw") else x
                 for k, x in enumerate(g.ops)]
        for _ in range(len(g.ops) // 8 + 1):
            g.ops.insert(rng.randrange(1, len(g.ops) + 1), ("in " + rng.choice([
                "05", "1b5b63", "1b5d30613b6207", "1b5b366e", "1b5d7807",
                "1b5b3f31303033681b5b3f3130303668", "1b5b3f313030326c",
                "1b63", "1b5b2170", "050505"]), none, none))
    return g.ops


def tall_script(rng):
    """C06: a screen with many lines"""
    none, t = frozenset(), frozenset(["C06"])
    vte = rng.random() < .7
    w, h = rng.choice([1, 1, 2, 3]), rng.choice([100, 129, 130, 140, 200, 300,
                                                 rng.randrange(60, 400)])
    ops = [("new %d %d %d 1 1" % (w, h, vte), none, none)]
    if rng.random() < .7:
        ops.append(("maxsb %d" % rng.choice([1, 5, 150, 500]), none, none))
    if not vte:
        ops.append(("setflags 2", none, none))
        for k in range(rng.randrange(1, 4)):
            y = rng.randrange(h)
            ops.append(("moveto 0 %d" % y, none, none))
            for c in range(rng.randrange(1, 12)):
                ops.append(("write %d 2 3 0 0 0 0 0 0 0 0 0 0 0 0" % (65 + c),
                            none, none))
    else:
        for k in range(3):
            ops.append(("in " + (b"\x1b[%dH" % rng.randrange(1, h + 1) + bytes(
                33 + (i + 7 * k) % 90 for i in range(
                    rng.randrange(1, w * h + 1) if k else w * h))).hex(),
                none, none))

    def n():
        return rng.choice([1, 2, h, h - 1, h // 2, h + 1, 63, 64, 65, 126, 127,
                           128, 129, 130, 255, 256, 257, rng.randrange(1, h),
                           rng.randrange(1, h), rng.randrange(1, h)])
    for _ in range(rng.randrange(4, 9)):
        x = rng.random()
        if vte and x < .3:
            # all lines have text, the region and the cursor are anywhere
            k = rng.randrange(90)
            a = rng.choice([1, 1, 2, rng.randrange(1, h)])
            ops.append(("in " + (b"\x1b[r\x1b[H" + bytes(
                33 + (i + k) % 90 for i in range(w * h))).hex(), none, none))
            ops.append(("in " + (b"\x1b[%d;%dr\x1b[%dH\x1b[%d" % (
                a, rng.choice([h, h, h - 1, rng.randrange(1, h + 1)]),
                rng.choice([a, a, a + 1, rng.randrange(1, h + 1)]), n()) +
                rng.choice([b"S", b"T", b"L", b"M", b"L", b"M"])).hex(),
                t, none))
        elif x < .45:
            a = rng.choice([1, 1, 2, rng.randrange(1, h)])
            b = rng.choice([h, h, h - 1, rng.randrange(1, h + 1)])
            ops.append((("margins %d %d" % (a, b)) if not vte else
                        "in " + (b"\x1b[%d;%dr" % (a, b)).hex(), t, t))
        elif x < .6:
            y = rng.choice([0, 0, rng.randrange(1 + h // 4), h - 1,
                            rng.randrange(h)])
            ops.append(("moveto 0 %d" % y if not vte else
                        "in " + (b"\x1b[%dH" % (y + 1)).hex(), none, none))
        elif vte:
            ops.append(("in " + (b"\x1b[%d" % n() + rng.choice(
                [b"S", b"T", b"L", b"M", b"L", b"M"])).hex(), t, none))
        else:
            ops.append((rng.choice(
                ["scrollup %d", "scrolldown %d", "inslines %d", "dellines %d",
                 "moveup %d 1", "movedown %d 1"]) % n(), t, none))
    return ops


def tabs_script(rng):
    """C09: many tab stops"""
    none, t = frozenset(), frozenset(["C09"])
    w = rng.randrange(258, 420)
    ops = [("new %d 1 %d 1 1" % (w, rng.random() < .5), none, none)]
    if rng.random() < .3:
        ops.append(("rstall", t, t))
    for _ in range(rng.randrange(2)):
        ops.append(("resize %d 1" % rng.randrange(258, 420), none, none))
    ops.append(("moveto 0 0", none, none))
    vte = ops[0][0].split()[3] == "1"
    if not vte or rng.random() < .4:
        # few of them
        ops.append(("rstall", t, t))
        for _ in range(rng.randrange(3)):
            ops += [("moveto %d 0" % rng.randrange(w), none, none),
                    ("settab", t, t)]
        ops.append(("moveto %d 0" % rng.choice([0, 0, w - 1]), none, none))
    else:
        ops.append(("in " + (b"\x1bH\x1b[C" * w).hex(), t, t))
    for _ in range(rng.randrange(3, 8)):
        n = rng.choice([1, 1, 1, 1, 2, 200, 255, 256, 257, rng.randrange(1, 420), 1000])
        k = rng.choice("IZIZ0p")
        if k == "0":
            ops.append(("moveto %d 0" % rng.choice([0, 1, w - 1, 300]), none,
                        none))
        elif k == "p":
            ops += [("moveto %d 0" % rng.randrange(w), none, none),
                    ("rsttab", t, t), ("moveto 0 0", none, none)]
        elif vte and rng.random() < .7:
            ops.append(("in " + (b"\x1b[%d%s" % (n, k.encode())).hex(), t,
                        none))
        else:
            ops.append(("tabr %d" % n if k == "I" else "tabl %d" % n, t, none))
    return ops


def resize_script(rng, faults=0):
    """sizes around what is allocated at first (80x24)"""
    def size():
        return (rng.choice([1, 3, 79, 80, 81, 82, 83, 90]),
                rng.choice([1, 2, 23, 24, 25, 26, 27, 30]))
    none = frozenset()
    w, h = size()
    ops = [("new %d %d 1 1 1" % (w, h), none, none)]
    if rng.random() < .6:
        ops.append(("maxsb %d" % rng.choice([1, 3, 40]), none, none))
    t = frozenset(["C10"])
    n = 65
    for _ in range(rng.randrange(4, 14)):
        k = rng.random()
        if k < .6:
            nw, nh = size() if rng.random() < .6 else \
                (w + rng.choice([0, 0, 1, 2, -1]),
                 h + rng.choice([0, 0, 1, 2, -1]))
            if nw < 1 or nh < 1:
                continue
            x = ("resize %d %d" % (nw, nh), t, t)
            if rng.random() < faults:
                ops.append(("fail %d%s" % (rng.choice(
                    [1, 2, 3, rng.randrange(1, 20), rng.randrange(1, 70)]),
                    rng.choice(["", "", " 1"])), none, none))
                ops.append(x)
                if rng.random() < .6:
                    # it may have failed, but the lines may be there
                    nw, nh = rng.choice([(w, nh), (w, max(1, nh - 1)),
                                         (nw, h), (w, nh + 1)])
                    x = ("resize %d %d" % (nw, nh), t, t)
            w, h = nw, nh
            ops.append(x)
        elif k < .9:
            # both ends of some lines
            b = b""
            for _ in range(rng.randrange(1, 5)):
                n = 65 + (n - 64) % 50
                b += b"\x1b[%d;%dH%c" % (rng.choice([1, h, h - 1, 2, 24, 25]),
                                        rng.choice([1, w, w - 1, 80, 81]), n)
            ops.append(("in " + b.hex(), none, none))
        elif k < .95:
            ops.append(("in " + rng.choice(
                [b"\x1b[?1047h", b"\x1b[?1047l", b"\x1b[44m",
                 b"\x1b[3;20r"]).hex(), none, none))
        else:
            ops.append(("scrollup %d" % rng.randrange(1, 4), none, none))
    return ops


FAULTS = [("posix_openpt", 1), ("pipe2", 1), ("fork", 1), ("sigprocmask", 1),
          ("grantpt", 1), ("unlockpt", 1), ("ptsname", 1), ("open", 1),
          ("setsid", 1), ("ioctl", 1), ("tcgetattr", 1), ("tcsetattr", 1),
          ("ioctl", 2), ("dup2", 1), ("dup2", 2), ("dup2", 3)]


def child_open(r, p):
    out = []
    for _ in range(r.choice([0, 0, 1, 3])):
        out.append("%s %d" % (r.choice(["ignore", "ignore", "block", "handle"]),
                              r.choice([1, 2, 3, 13, 14, 15, 17, 18, 20, 21,
                                        22, 28, 31, 34, 64,
                                        r.randrange(1, 65)])))
    if r.random() < .3:
        out.append("std %d" % r.randrange(1, 4))
    k = r.random()
    if k < .15:
        out.append("fault %s %d" % r.choice(FAULTS))
    elif k < .25:
        out.append("fault %s %d 1" % (r.choice(["read", "write"]),
                                      r.choice([1, 1, 2])))
    elif k < .3:
        out.append("fail %d" % r.choice([1, 1, 2]))
    out.append("open %d %d %d" % (p, r.choice(SIZES), r.choice(SIZES)))
    return out


SIZES = [0, 1, 2, 24, 80, 81, 132, 255, 256, 257, 1000, 32767, 32768, 65535]


def child_script(r):
    """C31"""
    lines = child_open(r, 0)
    n = 1
    for _ in range(r.choice([3, 8, 15])):
        p = r.randrange(n)
        k = r.random()
        if k < .2:
            if n < 3 and r.random() < .6:
                p = n
                n += 1
            lines += child_open(r, p)
        elif k < .35:
            lines.append("resize %d %d %d" % (p, r.choice(SIZES),
                                              r.choice(SIZES)))
        elif k < .5:
            lines.append("sig %d %d" % (p, r.choice([2, 3, 20, 2, 3, 20, 1, 15,
                                                     9, 28, 0, 64])))
        elif k < .65:
            lines.append("q %d" % p)
        elif k < .7:
            lines.append("close %d" % p)
        elif k < .75:
            lines.append(r.choice(["ref %d", "unref %d"]) % p)
        elif k < .8:
            lines.append("info %d" % p)
        elif k < .84:
            lines.append("exit %d" % p)
        elif k < .87:
            lines.append("idle %d" % p)
        else:
            lines.append("%s %d %d %d" % (
                r.choice(["say", "hear"]), p, r.choice(
                    [0, 1, 10, 1000, 4095, 4096, 5000, 20000, 16383, 33000]),
                r.randrange(251)))
    return lines + ["q %d" % i for i in range(n)] + ["info 0"]
