#!/usr/bin/env python3
"""C33: the Python patches.  The package under /repo/contrib/py is imported next to stand-ins for the image
libraries it patches, and every listed combination of library, file, arguments, behaviour of the converter and
failure is played.  Follows the command line and the result file of h/runner.h."""
import errno, importlib, itertools, json, os, shutil, signal, stat, struct, subprocess, sys, tempfile, time, types
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
import vbuild
SIG = b"\x0a\x04B\xd2\xd5N"
args = sys.argv[1:]
opt = {}
for k in ("--tier", "--out", "--deadline", "--only"):
    if k in args:
        opt[k] = args[args.index(k) + 1]
replay = args[args.index("--replay") + 1:][:2] if "--replay" in args else None
DEEP = opt.get("--tier") == "thorough"
T0 = time.time()
TOP = tempfile.mkdtemp(prefix="vf-c33-")
CONVERTER = os.path.join(TOP, "converter")
TOOL = os.path.join(vbuild.BUILD, "bin-c33-dbrunsli-fast")


class Problem(Exception):
    def __init__(self, key, msg):
        Exception.__init__(self, msg)
        self.key = key


def need(ok, key, msg, *a):
    if not ok:
        raise Problem(key, msg % a if a else msg)


class LibraryError(Exception):
    pass


# ---- the libraries ----
# Every stand-in calls the hook below for what its library would read: the hook sees the content at that moment.
class World:
    reads = ()          # what the library was asked to read: (kind, name, args, kwargs, content)
    fail = False        # the library's own function raises


def lib_read(kind, name, a, kw):
    content = None
    try:
        with open(name, "rb") as h:
            content = h.read()
    except (OSError, TypeError, ValueError):
        pass
    World.reads.append((kind, name, a, kw, content))
    if World.fail:
        raise LibraryError("as told")
    return ("read", len(World.reads), content)


def make_cv2(mark=True, imread=True):
    m = types.ModuleType("cv2")
    if mark:
        m.CV_32FC3 = 21
    if imread:
        def imread(filename, flags=1):
            "Loads an image."
            return lib_read("cv2", filename, (), {"flags": flags})
        m.imread = imread
    return m


def make_magick(mark=True):
    m = types.ModuleType("PythonMagick")
    if mark:
        m.DrawableCircle = object

    class Image(object):
        def __init__(self, *a, **kw):
            "Makes an image."
            self.got = lib_read("magick", a[0] if a else None, a[1:], kw)
    m.Image = Image
    return m


def make_imageio():
    m = types.ModuleType("imageio")
    core = types.ModuleType("imageio.core")

    class Format(object):
        def __init__(self, name, description, extensions=None, modes=None):
            self.name, self.description, self.extensions, self.modes = name, description, extensions, modes

        class Reader(object):
            def __init__(self, format, request):
                self.request = request
                self._open()

        class Writer(object):
            pass
    core.Format = Format
    m.core = core

    class Formats(object):
        def __init__(self):
            self.list = []

        def add_format(self, f, overwrite=False):
            if f.name in [x.name for x in self.list] and not overwrite:
                raise ValueError("already registered")
            self.list.append(f)
    m.formats = Formats()

    def imread(uri, format=None, **kw):
        "Reads an image."
        return lib_read("imageio", uri, (), kw)
    m.imread = imread
    return m


def make_pil(mark=True):
    pil = types.ModuleType("PIL")
    image = types.ModuleType("PIL.Image")
    imagefile = types.ModuleType("PIL.ImageFile")
    image._plugins = ["BmpImagePlugin", "JpegImagePlugin"] if mark else []
    image.OPEN, image.EXTENSION, image.registered = {}, {}, 0

    class Plain(object):
        pass

    def register_open(id, factory, accept=None):
        image.OPEN[id.upper()] = (factory, accept)
        image.registered += 1

    def register_extension(id, ext):
        image.EXTENSION[ext.lower()] = id.upper()

    def open_(fp, mode="r"):
        name = ""
        own = None
        if isinstance(fp, (str, bytes)):
            name = fp
            own = fp = open(fp, "rb")
        start = fp.tell()
        prefix = fp.read(16)
        fp.seek(start)
        for factory, accept in list(image.OPEN.values()):
            if accept and not accept(prefix):
                continue
            try:
                return factory(fp, name)
            except (SyntaxError, IndexError, TypeError, struct.error):
                fp.seek(start)
        if own:
            own.close()
        # the library's own formats
        data = fp.read() if not own else open(name, "rb").read()
        World.reads.append(("pil", name, (), {}, data))
        if World.fail:
            raise LibraryError("as told")
        im = Plain()
        im.mode, im.size, im.tile, im.fp = "RGB", (len(data), 1), [("jpeg", data)], fp
        return im

    class ImageFile(object):
        def __init__(self, fp=None, filename=None):
            self.fp, self.filename, self.mode, self.size, self.tile = fp, filename, "", (0, 0), None
            self._open()
    image.open, image.register_open, image.register_extension = open_, register_open, register_extension
    imagefile.ImageFile = ImageFile
    pil.Image, pil.ImageFile = image, imagefile
    return pil


NAMES = ("cv2", "PythonMagick", "imageio", "imageio.core", "PIL", "PIL.Image", "PIL.ImageFile", "matplotlib", "matplotlib.image", "nothing", "opencv", "decoy", "magick2", "decoy2")


def forget():
    for n in list(sys.modules):
        if n in NAMES or n.split(".")[0] == "jxl_library_patches":
            del sys.modules[n]


def install(cv2=None, magick=None, imageio=None, pil=None):
    if cv2:
        sys.modules["cv2"] = cv2
    if magick:
        sys.modules["PythonMagick"] = magick
    if imageio:
        sys.modules["imageio"] = imageio
        sys.modules["imageio.core"] = imageio.core
    if pil:
        sys.modules["PIL"] = pil
        sys.modules["PIL.Image"] = pil.Image
        sys.modules["PIL.ImageFile"] = pil.ImageFile


def load_patches():
    p = os.path.join(vbuild.REPO, "contrib", "py")
    if p not in sys.path:
        sys.path.insert(0, p)
    out, sys.stdout = sys.stdout, open(os.devnull, "w")
    try:
        return importlib.import_module("jxl_library_patches")
    finally:
        sys.stdout = out


# ---- the converter: what it does is told by its input's seventh byte on, so that no environment is involved ----
SCRIPT = """#!/bin/sh
echo . >> "%s/calls.$PPID"
[ $# -eq 2 ] || exit 3
mode=`tail -c +7 "$1" | head -c 1`
case "$mode" in
o) { printf 'JPEG of '; tail -c +7 "$1"; } > "$2"; exit 0;;
f) exit 1;;
w) printf 'half' > "$2"; exit 7;;
k) kill -9 $$;;
n) exit 0;;
x) { printf 'JPEG of '; tail -c +7 "$1"; } > "$2"; d=`dirname "$2"`; echo t > "$d/scratch"; mkdir "$d/sub"; echo t > "$d/sub/t"; exit 0;;
y) d=`dirname "$2"`; echo t > "$d/scratch"; printf 'noise' >&2; exit 1;;
esac
exit 9
"""
MODES = "ofwknxy"


def calls():
    p = os.path.join(TOP, "calls.%d" % os.getpid())
    if not os.path.exists(p):
        return 0
    n = len(open(p).read().splitlines())
    os.unlink(p)
    return n


class Case:
    def __init__(self):
        self.tmp = os.path.join(TOP, "tmp.%d" % os.getpid())
        self.dir = os.path.join(TOP, "in.%d" % os.getpid())
        for d in (self.tmp, self.dir):
            shutil.rmtree(d, ignore_errors=True)
            os.mkdir(d)
        tempfile.tempdir = self.tmp
        os.environ["TMPDIR"] = self.tmp

    def clean(self, what):
        left = [os.path.join(d, f) for d, ds, fs in os.walk(self.tmp) for f in ds + fs]
        need(not left, "left-over", "%s leaves %s behind", what, ", ".join(os.path.basename(x) for x in left))


def content_of(kind):
    """(content or None, mode of the converter or None)"""
    if kind[0] == "b":  # a recompressed file
        return SIG + kind[1:].encode() + b" body"
    return {"jpeg": b"\xff\xd8\xff\xe0 jpeg", "empty": b"", "short": SIG[:5], "sig": SIG, "near": SIG[:5] + b"n body",
            "late": b"\0" + SIG + b"o body"}.get(kind)


FILES = ["b" + m for m in MODES] + ["jpeg", "empty", "short", "sig", "near", "late", "missing", "directory"]
NAMESET = ["a.jpg", "a b'\".brn", "-x", "\u00e9.jpg", "a\nb"]
ARGS = [((), {}), ((0,), {}), ((), {"flags": 0}), ((), {"flags": -1})]
FAULTS = ["none", "library", "mkdtemp", "gone", "noexec"]
state = {}


def setup():
    """One import with all four libraries, kept for the cases of this process."""
    if state:
        return
    os.environ["BIN_JPEG_FROM_JXL"] = CONVERTER
    forget()
    state.update(cv2=make_cv2(), magick=make_magick(), imageio=make_imageio(), pil=make_pil())
    install(**state)
    state["patches"] = load_patches()
    calls()


def play(lib, kind, name, a, kw, fault, relative=False):
    c = Case()
    setup()
    World.reads = []
    World.fail = fault == "library"
    path = os.path.join(c.dir, name)
    data = content_of(kind)
    if data is not None:
        with open(path, "wb") as h:
            h.write(data)
    elif kind == "directory":
        os.mkdir(path)
    ours = data is not None and data.startswith(SIG)
    mode = chr(data[6]) if ours and len(data) > 6 else None
    converts = mode in ("o", "x")
    asked = name if relative else path
    show = "%s, file %s %r, arguments %r %r, fault %s" % (lib, kind, name, a, kw, fault)
    cwd = os.getcwd()
    if relative:
        os.chdir(c.dir)
    orig_mkdtemp = tempfile.mkdtemp
    if fault == "mkdtemp":
        def no(*x, **y):
            raise OSError(errno.ENOSPC, "full")
        tempfile.mkdtemp = no
    os.environ["BIN_JPEG_FROM_JXL"] = {"gone": CONVERTER + "-not", "noexec": os.path.join(TOP, "plain")}.get(fault, CONVERTER)
    result = error = None
    err = os.dup(2)
    nul = os.open(os.devnull, os.O_WRONLY)
    os.dup2(nul, 2)
    try:
        if lib == "cv2":
            result = state["cv2"].imread(asked, *a, **kw)
        elif lib == "magick":
            result = state["magick"].Image(asked, *a, **kw).got
        elif lib == "imageio":
            fmt = state["imageio"].formats.list[0]
            req = types.SimpleNamespace(mode="ri", firstbytes=(data or b"")[:256], get_local_filename=lambda: asked)
            can = fmt._can_read(req)
            need(bool(can) == ours, "imageio-claims", "%s: the format says %r", show, can)
            if can:
                rd = fmt.Reader(fmt, req)
                need(rd._get_length() == 1, "imageio-length", "%s: %r images", show, rd._get_length())
                for i in (-1, 1, 2):
                    try:
                        rd._get_data(i)
                    except IndexError:
                        continue
                    raise Problem("imageio-index", "%s: index %d is accepted" % (show, i))
                r = rd._get_data(0)
                need(isinstance(r, tuple) and len(r) == 2 and r[1] == {}, "imageio-result", "%s: result %r", show, r)
                result = r[0]
                rd._close()
            else:
                result = state["imageio"].imread(asked)
        elif lib == "pil":
            result = state["pil"].Image.open(asked)
        elif lib == "pil-stream":
            import io
            result = state["pil"].Image.open(io.BytesIO(data))
    except Problem:
        raise
    except Exception as e:
        error = e
    finally:
        os.dup2(err, 2)
        os.close(err)
        os.close(nul)
        tempfile.mkdtemp = orig_mkdtemp
        os.environ["BIN_JPEG_FROM_JXL"] = CONVERTER
        os.chdir(cwd)
    n = calls()
    if lib.startswith("pil") and isinstance(getattr(result, "fp", None), object):
        fp = getattr(result, "fp", None)
    reads = World.reads
    c.clean(show)
    if data is not None:
        need(open(path, "rb").read() == data, "source-changed", "%s: the file was changed", show)
    need(sorted(os.listdir(c.dir)) == ([name] if data is not None or kind == "directory" else []), "litter", "%s: other files appear beside the file", show)
    if not ours:
        need(n == 0, "converter-called", "%s: the converter was called for a foreign file", show)
        if lib.startswith("pil"):
            if kind in ("missing", "directory"):
                need(isinstance(error, OSError), "foreign", "%s: %r", show, error)
                return True
            need(len(reads) == 1 and reads[0][4] == data, "foreign", "%s: the library read %r", show, reads)
        else:
            need(len(reads) == 1 and reads[0][1] == asked, "foreign", "%s: the library was asked for %r", show, [r[1] for r in reads])
            if lib == "cv2":
                want = {"flags": a[0] if a else kw.get("flags", 1)}
                need(reads[0][3] == want, "arguments", "%s: the library got %r", show, reads[0][3])
            elif lib == "magick":
                need(reads[0][2:4] == (a, kw), "arguments", "%s: the library got %r", show, reads[0][2:4])
        if fault == "library":
            need(isinstance(error, LibraryError), "foreign", "%s: the library's error becomes %r", show, error)
        else:
            need(error is None, "foreign", "%s: raises %r", show, error)
            if not lib.startswith("pil"):
                need(result == ("read", 1, data), "foreign", "%s: the result is %r", show, result)
        return False
    # a recompressed file
    if fault in ("mkdtemp", "gone", "noexec") or not (converts or mode == "n"):
        need(error is not None and not reads, "failure-hidden", "%s: %s", show, "no error" if error is None else "the library is called nevertheless")
        if fault in ("none", "library"):
            need(isinstance(error, RuntimeError), "error-kind", "%s: a failed conversion is reported as %r", show, error)
            need(n == 1, "converter-calls", "%s: the converter was called %d times", show, n)
        return True
    need(n == 1, "converter-calls", "%s: the converter was called %d times", show, n)
    want = b"JPEG of " + data[6:] if converts else None
    if lib.startswith("pil") and want is None:
        need(isinstance(error, OSError), "failure-hidden", "%s: no output, but %r", show, error)
        return True
    need(len(reads) == 1, "library-calls", "%s: the library was called %d times", show, len(reads))
    need(reads[0][4] == want, "wrong-content", "%s: the library was given %r instead of %r", show, reads[0][4], want)
    if lib == "cv2":
        flags = {"flags": a[0] if a else kw.get("flags", 1)}
        need(reads[0][3] == flags, "arguments", "%s: the library got %r", show, reads[0][3])
    elif lib == "magick":
        need(reads[0][2:4] == (a, kw), "arguments", "%s: the library got %r", show, reads[0][2:4])
    if fault == "library":
        need(isinstance(error, LibraryError), "library-error", "%s: the library's error becomes %r", show, error)
        return True
    need(error is None, "error", "%s: raises %r", show, error)
    if lib.startswith("pil"):
        need(result.format == "JPEG-XL", "pil-format", "%s: format %r", show, getattr(result, "format", None))
        need((result.mode, result.size, result.tile) == ("RGB", (len(want), 1), [("jpeg", want)]), "pil-forward", "%s: mode, size and data are %r %r %r", show, result.mode, result.size, result.tile)
        result.fp.seek(0)
        need(result.fp.read() == want, "pil-data", "%s: the data to decode are not the JPEG", show)
    else:
        need(result == ("read", 1, want), "result", "%s: the result is %r", show, result)
    return True


LIBS = ["cv2", "magick", "imageio", "pil", "pil-stream"]


def space_calls():
    for lib, kind, name, (a, kw), fault, rel in itertools.product(LIBS, FILES, NAMESET, ARGS, FAULTS, (False, True)):
        if (a or kw) and lib not in ("cv2", "magick"):
            continue
        if lib == "pil-stream" and (kind in ("missing", "directory") or name != "a.jpg" or rel):
            continue
        if not DEEP:  # quick: names and relative paths only with plain arguments and no fault
            if (name != "a.jpg" or rel) and (a or kw or fault != "none"):
                continue
        if name == "-x" and rel:
            continue  # would be an option to most converters; nothing is promised
        yield (lambda t: lambda: play(*t))((lib, kind, name, a, kw, fault, rel)), "%s %s %r %r %r %s %s" % (lib, kind, name, a, kw, fault, rel)


def signature(data):
    """Does every library tell recompressed files from others by exactly the signature?"""
    c = Case()
    setup()
    ours = data[:6] == SIG
    path = os.path.join(c.dir, "a")
    with open(path, "wb") as h:
        h.write(data)
    got = sys.modules["jxl_library_patches.jxl_utils"].is_jpegxl_recompressed_jpeg_file(path)
    need(got is ours or got == ours, "signature", "%r is taken %s a recompressed file", data[:8], "for" if got else "not for")
    fmt = state["imageio"].formats.list[0]
    for m in ("ri", "rI", "r?", "rv", "rV", "wi"):
        got = fmt._can_read(types.SimpleNamespace(mode=m, firstbytes=data))
        need(bool(got) == (ours and m[1] in "iI?"), "imageio-claims", "imageio: %r in mode %s: %r", data[:8], m, got)
        need(not fmt._can_write(types.SimpleNamespace(mode=m, firstbytes=data)), "imageio-writes", "the format claims to write")
    if not ours:
        for lib in ("cv2", "magick", "pil"):
            World.reads, World.fail = [], False
            {"cv2": state["cv2"].imread, "magick": state["magick"].Image, "pil": state["pil"].Image.open}[lib](path)
            need(calls() == 0 and len(World.reads) == 1 and World.reads[0][4] == data and World.reads[0][1] == path, "foreign", "%s: %r is not handed on as it is", lib, data[:8])
    return ours


def space_signature():
    files = [SIG[:k] + t for k in range(7) for t in (b"", b"\0", b"x" * 9)]
    for k in range(6):
        for v in range(256):
            files.append(SIG[:k] + bytes([v]) + SIG[k + 1:] + b" tail")
    for k in range(6):
        for j in range(k):
            s = bytearray(SIG)
            s[j], s[k] = s[k], s[j]
            files.append(bytes(s) + b" tail")
    for k in range(1, 8):
        files.append(b"\0" * k + SIG)
    for f in files:
        yield (lambda t: lambda: signature(t))(f), repr(f[:10])


def modules(bits):
    """Which modules are loaded decides what is patched, whatever else is in the list of modules."""
    c = Case()
    os.environ["BIN_JPEG_FROM_JXL"] = CONVERTER
    state.clear()
    forget()
    (has_cv2, has_magick, has_imageio, has_pil, none, decoys, alias, second, plot) = bits
    cv2 = make_cv2() if has_cv2 else None
    magick = make_magick() if has_magick else None
    imageio = make_imageio() if has_imageio else None
    pil = make_pil() if has_pil or plot else None
    install(cv2, magick, imageio, pil)
    World.reads, World.fail = [], False
    others = []
    if none:
        sys.modules["nothing"] = None
    if decoys:  # call themselves like the libraries, but are not
        others = [make_cv2(mark=False), make_cv2(imread=False)]
        sys.modules["decoy"], sys.modules["decoy2"] = others
    if alias and cv2:
        sys.modules["opencv"] = cv2
    cv2b = None
    if second:
        cv2b = sys.modules["decoy2" if not decoys else "opencv"] = make_cv2()
    if plot:
        sys.modules["matplotlib.image"] = types.ModuleType("matplotlib.image")
    before = [dict(m.__dict__) for m in others]
    try:
        load_patches()
        for m, b in zip(others, before):
            need(m.__dict__ == b, "decoy", "a module that only looks like OpenCV was changed")
        path = os.path.join(c.dir, "a")
        with open(path, "wb") as h:
            h.write(content_of("bo"))
        want = b"JPEG of o body"
        for n, m in (("cv2", cv2), ("cv2b", cv2b)):
            if not m:
                continue
            World.reads = []
            calls()
            need(m.imread.__doc__ == "Loads an image.", "doc", "the documentation of imread is lost")
            r = m.imread(path)
            need(r == ("read", 1, want) and calls() == 1, "module-" + n, "imread of %s gives %r", n, r)
        if magick:
            World.reads = []
            calls()
            need(magick.Image.__init__.__doc__ == "Makes an image.", "doc", "the documentation of Image is lost")
            r = magick.Image(path).got
            need(r == ("read", 1, want) and calls() == 1, "module-magick", "Image gives %r", r)
            World.reads = []
            magick.Image()
            magick.Image("100x100", "white")
            magick.Image(b"blob" * 3)
            need([x[1:4] for x in World.reads] == [(None, (), {}), ("100x100", ("white",), {}), (b"blob" * 3, (), {})] and calls() == 0, "magick-other", "other ways to make an image are not passed on: %r", World.reads)
        if imageio:
            fs = imageio.formats.list
            need(len(fs) == 1 and fs[0].extensions == ".jxl" and set(fs[0].modes) == set("iI"), "module-imageio", "%d formats are registered", len(fs))
        if pil:
            need(pil.Image.registered == 1 and pil.Image.EXTENSION == {".jxl": "JPEG-XL"}, "module-pil", "Pillow: %d formats, extensions %r", pil.Image.registered, pil.Image.EXTENSION)
            World.reads = []
            calls()
            im = pil.Image.open(path)
            need(im.tile == [("jpeg", want)] and calls() == 1, "module-pil", "Pillow gives %r", im.tile)
        c.clean("import")
    finally:
        forget()
    return any(bits[:4])


def space_modules():
    for bits in itertools.product((False, True), repeat=9):
        yield (lambda t: lambda: modules(t))(bits), " ".join(n for n, b in zip(("cv2", "PythonMagick", "imageio", "PIL", "None", "decoys", "alias", "second", "matplotlib"), bits) if b)


def no_converter(path, all_libs):
    """Without a converter the import says so and patches nothing."""
    Case()
    state.clear()
    forget()
    os.environ["BIN_JPEG_FROM_JXL"] = path
    cv2 = make_cv2()
    orig = cv2.imread
    install(cv2, make_magick() if all_libs else None)
    try:
        load_patches()
    except SystemExit as e:
        need(e.code not in (0, None), "no-converter", "the import ends with %r", e.code)
        need(cv2.imread is orig, "no-converter", "patched although there is no converter")
        return True
    finally:
        os.environ["BIN_JPEG_FROM_JXL"] = CONVERTER
        forget()
    raise Problem("no-converter", "the import succeeds without a converter (%s)" % path)


def space_no_converter():
    for p in (os.path.join(TOP, "not-there"), os.path.join(TOP, "plain"), TOP, os.path.join(TOP, "plain", "x")):
        for b in (False, True):
            yield (lambda t: lambda: no_converter(*t))((p, b)), p.replace(TOP, "")


def real(lib, jpg, brn):
    """With the real converter every corpus stream reads as its JPEG, and damaged ones are errors."""
    c = Case()
    setup()
    os.environ["BIN_JPEG_FROM_JXL"] = TOOL
    err = os.dup(2)
    out = os.dup(1)
    nul = os.open(os.devnull, os.O_WRONLY)
    os.dup2(nul, 2)
    os.dup2(nul, 1)
    try:
        path = os.path.join(c.dir, "a")
        with open(path, "wb") as h:
            h.write(brn)
        World.reads, World.fail = [], False
        got = error = None
        try:
            if lib == "cv2":
                got = state["cv2"].imread(path)[2]
            elif lib == "magick":
                got = state["magick"].Image(path).got[2]
            elif lib == "imageio":
                fmt = state["imageio"].formats.list[0]
                got = fmt.Reader(fmt, types.SimpleNamespace(get_local_filename=lambda: path))._get_data(0)[0][2]
            else:
                got = state["pil"].Image.open(path).tile[0][1]
        except RuntimeError as e:
            error = e
        c.clean("reading a stream")
        if jpg is None:
            need(error is not None, "real-damage", "%s: a damaged stream is read", lib)
        else:
            need(error is None and got == jpg, "real", "%s: %s", lib, repr(error) if error else "other bytes than those of the JPEG")
    finally:
        os.dup2(err, 2)
        os.dup2(out, 1)
        for f in (err, out, nul):
            os.close(f)
        os.environ["BIN_JPEG_FROM_JXL"] = CONVERTER
    return True


def space_real():
    f = open(os.environ.get("VERIF_CORPUS", os.path.join(os.path.dirname(HERE), "corpus", "corpus.bin")), "rb")
    while True:
        line = f.readline()
        if not line:
            break
        name, kind, a, b = line.split()
        jpg, brn = f.read(int(a)), f.read(int(b))
        for lib in ("cv2", "magick", "imageio", "pil"):
            yield (lambda t: lambda: real(*t))((lib, jpg, brn)), "%s %s" % (lib, name.decode())
            yield (lambda t: lambda: real(*t))((lib, None, brn[:-1])), "%s %s cut" % (lib, name.decode())


SPACES = [("signature", space_signature), ("calls", space_calls), ("modules", space_modules), ("no-converter", space_no_converter), ("real-converter", space_real)]


def main():
    with open(CONVERTER, "w") as h:
        h.write(SCRIPT % TOP)
    os.chmod(CONVERTER, 0o755)
    open(os.path.join(TOP, "plain"), "w").write("not a program")
    if replay:
        sp = dict(SPACES)[replay[0]]
        for i, (f, d) in enumerate(sp()):
            if i == int(replay[1]):
                try:
                    f()
                except Exception as e:
                    print("%s: %s" % (d, e))
                    return 1
                print("held: " + d)
                return 0
        return 2
    deadline = T0 + float(opt.get("--deadline", "700"))
    total = nontrivial = 0
    per, samples, violations, truncated = {}, [], [], []
    for name, gen in SPACES:
        if opt.get("--only") and not name.startswith(opt["--only"]):
            continue
        t = time.time()
        kids = []
        for w in range(8):
            path = os.path.join(TOP, "out.%d" % w)
            pid = os.fork()
            if pid == 0:
                r = dict(n=0, nt=0, bad=[], samples=[], cut=False)
                try:
                    for i, (f, d) in enumerate(gen()):
                        if i % 8 != w:
                            continue
                        if time.time() > deadline:
                            r["cut"] = True
                            break
                        r["n"] += 1
                        try:
                            if f():
                                r["nt"] += 1
                        except Problem as e:
                            if len([b for b in r["bad"] if b[1] == e.key]) < 2:
                                r["bad"].append((i, e.key, d, str(e)))
                        except Exception as e:
                            import traceback
                            if len(r["bad"]) < 6:
                                r["bad"].append((i, "exception", d, "%r\n%s" % (e, traceback.format_exc()[-1200:])))
                        if len(r["samples"]) < 2:
                            r["samples"].append(d)
                    json.dump(r, open(path, "w"))
                    os._exit(0)
                except BaseException as e:
                    sys.stderr.write("worker: %r\n" % e)
                    os._exit(1)
            kids.append((pid, path))
        n = nt = 0
        for pid, path in kids:
            st = os.waitpid(pid, 0)[1]
            if st:
                return 2
            r = json.load(open(path))
            n += r["n"]
            nt += r["nt"]
            if r["cut"] and name not in truncated:
                truncated.append(name)
            for i, k, d, m in r["bad"]:
                if len([v for v in violations if (v["space"], v["key"]) == (name, k)]) < 3:
                    violations.append(dict(space=name, index=i, key=k, desc=d, msg=m, blob=""))
            if len(samples) < 30:
                samples += ["%s: %s" % (name, d) for d in r["samples"]]
        per[name] = n
        total += n
        nontrivial += nt
        print("[C33] %-30s %10d cases %6.1fs" % (name, n, time.time() - t), flush=True)
    json.dump(dict(evaluations=total, distinct_nontrivial=nontrivial,
                   rule="every listed combination of library, file, name, arguments, converter behaviour and failure is played through the patched library; non-trivial: a recompressed file is involved, or a library is patched",
                   samples=samples, exhaustive=not truncated, truncated=truncated, spaces=per, counters={}, notes=[],
                   assumptions=["the image libraries are stand-ins with the documented interfaces the patches use; none of the libraries is installed"],
                   violations=violations, wall_s=time.time() - T0), open(os.path.join(opt["--out"], "result.json"), "w"))
    return 1 if violations else 0


rc = 2
pid = os.getpid()
try:
    rc = main()
finally:
    if os.getpid() == pid:
        shutil.rmtree(TOP, ignore_errors=True)
sys.exit(rc)
