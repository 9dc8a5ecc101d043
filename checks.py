"""Registry: which harness decides which property."""
import os
import vbuild

VERIF = vbuild.VERIF


def simple(name, variant="fast", defines=(), link=(), flags=(), libs=None):
    """A harness h/<name>.cc linked against the library under test."""
    def build():
        ls = [vbuild.build_lib(variant, defines=defines,
                               tag="" if not defines else "-x")] if libs is None else libs()
        return vbuild.build_harness(name, variant, ls, link=link,
                                    flags=list(flags) + list(defines))
    return dict(name=name + "-" + variant, build=build)


def with_ref(name, variant="fast"):
    """The harness linked against the tree's library and the frozen copy in ref/."""
    def build():
        ref = os.path.join(VERIF, "ref", "c")
        fl = ["-Dbrunsli=brunsli_ref", "-DDecodeBrunsli=RefDecodeBrunsli",
              "-DEncodeBrunsli=RefEncodeBrunsli", "-I" + os.path.join(VERIF, "ref")]
        ls = [vbuild.build_lib(variant),
              vbuild.build_lib(variant, defines=fl, root=ref, tag="-ref",
                               extra_src=(os.path.join(VERIF, "ref", "ref.cc"),))]
        return vbuild.build_harness(name, variant, ls)
    return dict(name=name + "-" + variant, build=build)


JDK = "/usr/lib/jvm/java-17-openjdk-amd64"


def java_part(name, variant="fast"):
    """C27: the C++ harness with the JNI sources; the Java classes and a shared
    library for a real virtual machine."""
    jdir = os.path.join(vbuild.BUILD, "java")
    wrap = os.path.join(vbuild.REPO, "java", "dev", "brunsli", "wrapper")
    inc = ["-I" + os.path.join(JDK, "include"), "-I" + os.path.join(JDK, "include", "linux")]

    def build():
        lib = vbuild.build_lib(variant)
        jni = [os.path.join(wrap, f) for f in ("codec_jni.cc", "codec_jni_onload.cc")]
        with vbuild.Lock("java"):
            os.makedirs(jdir, exist_ok=True)
            vbuild.run(["clang++", "-std=c++11", "-w", "-fPIC", "-shared", "-O1", "-DNDEBUG",
                        "-I" + os.path.join(vbuild.REPO, "c", "include")] + inc + jni +
                       [lib[0]] + vbuild.BROTLI + ["-o", os.path.join(jdir, "libcodec.so")])
            vbuild.run(["javac", "-nowarn", "-d", jdir, os.path.join(wrap, "Codec.java"),
                        os.path.join(wrap, "CodecJNI.java"),
                        os.path.join(VERIF, "java", "dev", "brunsli", "wrapper", "Driver.java")])
        return vbuild.build_harness(name, variant, [lib],
                                    srcs=[os.path.join(VERIF, "h", name + ".cc")] + jni, flags=inc)
    return dict(name=name + "-" + variant, build=build, env={"VERIF_JAVA": jdir})


def wasm_part(name):
    def build():
        lib = vbuild.build_lib("fast")
        inc = os.path.join(vbuild.REPO, "c", "include")
        return vbuild.build_harness(name, "fast", [lib], special=[
            (os.path.join(vbuild.REPO, "wasm", "codec.cc"), "g++",
             ("-std=c++11", "-w", "-O1", "-fpermissive", "-I" + inc,
              "-include", os.path.join(VERIF, "h", "c31_low.h")))])
    return dict(name=name + "-fast", build=build)


def nginx_part(name):
    def build():
        mock = os.path.join(VERIF, "h", "ngx")
        src = os.path.join(vbuild.REPO, "contrib", "ngx_brunsli", "src")
        return vbuild.build_harness(name, "asan", [], special=[
            (os.path.join(src, "ngx_http_brunsli_static_module.c"), "clang",
             ("-std=gnu99", "-w", "-O1", "-g1", "-fsanitize=address", "-I" + mock, "-I" + src))])
    return dict(name=name + "-asan", build=build)


def apache_part(name):
    def build():
        mock = os.path.join(VERIF, "h", "apache")
        return vbuild.build_harness(name, "asan", [], special=[
            (os.path.join(vbuild.REPO, "contrib", "mod_brunsli", "mod_brunsli.c"), "clang",
             ("-std=gnu99", "-w", "-O1", "-g1", "-fsanitize=address", "-I" + mock))])
    return dict(name=name + "-asan", build=build)


def python_part():
    def build():
        lib = vbuild.build_lib("fast")
        vbuild.build_harness("c33-dbrunsli", "fast", [lib],
                             srcs=[os.path.join(vbuild.REPO, "c", "tools", "dbrunsli.cc")])
        return os.path.join(VERIF, "h", "c33.py")
    return dict(name="c33", build=build)


WRAPPED = ("fopen fopen64 fseek fseeko fseeko64 ftell ftello ftello64 fread fwrite fclose fflush "
           "read write writev fstat stat rename fsync").split()


def tool_part(tool, decodes):
    def build():
        lib = vbuild.build_lib("fast")
        c = os.path.join(vbuild.REPO, "c")
        return vbuild.build_harness(
            "c24-" + tool, "fast", [lib], srcs=[os.path.join(VERIF, "h", "c24.cc")],
            flags=["-DTOOL_DECODES=%d" % decodes],
            special=[(os.path.join(c, "tools", tool + ".cc"), "clang++",
                      ("-std=c++11", "-w", "-O1", "-Dmain=tool_main", "-I" + os.path.join(c, "include"),
                       "-I" + c))],
            link=["-static-libstdc++"] + ["-Wl,--wrap=" + w for w in WRAPPED])
    return dict(name="c24-" + tool, build=build)


def groups_part(name, variant="fast", **kw):
    """A harness linked against the library including the experimental groups."""
    def build():
        lib = vbuild.build_lib(variant, dirs=("common", "dec", "enc", "experimental"), tag="-g",
                               defines=["-DBRUNSLI_EXPERIMENTAL_GROUPS"])
        return vbuild.build_harness(name, variant, [lib], flags=["-DBRUNSLI_EXPERIMENTAL_GROUPS"], **kw)
    return dict(name=name + "-" + variant, build=build)


def sched_part(name, extra_scn=()):
    """Library and scenario instrumented, run by the scheduler of h/sched_rt.cc."""
    def build():
        lib = vbuild.build_lib("sched", dirs=("common", "dec", "enc", "experimental"),
                               defines=["-DBRUNSLI_EXPERIMENTAL_GROUPS"])
        h = os.path.join(VERIF, "h")
        c = os.path.join(vbuild.REPO, "c")
        inc = ("-w", "-I" + os.path.join(c, "include"), "-I" + c, "-I" + h)
        special = [(os.path.join(h, name + "_scn.cc"), "clang++",
                    ("-std=c++17",) + tuple(vbuild.VARIANTS["sched"]["flags"]) + inc),
                   (os.path.join(h, "sched_rt.cc"), "clang++", ("-std=c++17", "-O2", "-g1") + inc)]
        return vbuild.build_harness(name, "fast", [lib], special=special, link=["-ldl"])
    return dict(name=name + "-sched", build=build)


CHECKS = {
    "C29": dict(level="model_checking", parts=[sched_part("c29")]),
    "C21": dict(level="model_checking", parts=[sched_part("c21")]),
    "C20": dict(level="exploration", parts=[simple("c20", "fast")]),
    "C19": dict(level="exploration", parts=[simple("c19", "fast")]),
    "C18": dict(level="exploration", parts=[simple("c18", "fast")]),
    "C08": dict(level="fault_enumeration", parts=[simple("c08", "asan")]),
    "C06": dict(level="exploration", parts=[simple("c06", "ubsan")]),
    "C25": dict(level="exploration", parts=[simple("c25", "asan")]),
    "C02": dict(level="exploration", parts=[simple("c02", "fast")]),
    "C01": dict(level="exploration", parts=[simple("c01", "fast")]),
    "C03": dict(level="exploration", parts=[simple("c03", "asan")]),
    "C05": dict(level="exploration", parts=[simple("c05", "fast")]),
    "C09": dict(level="model_checking", parts=[simple("c09", "plain")]),
    "C10": dict(level="fault_enumeration", parts=[simple("c10", "fast")]),
    "C13": dict(level="exploration", parts=[simple("c13", "fast")]),
    "C07": dict(level="exploration", parts=[simple("c07", "ubsan")]),
    "C28": dict(level="exploration", parts=[simple("c28", "asan")]),
    "C04": dict(level="exploration", parts=[simple("c04", "asan")]),
    "C16": dict(level="exploration", parts=[simple("c16", "asan")]),
    "C34": dict(level="exploration", parts=[simple("c34", "asan")]),
    "C35": dict(level="model_checking", parts=[simple("c35", "asan")]),
    "C37": dict(level="model_checking", parts=[simple("c37", "asan")]),
    "C38": dict(level="exploration", parts=[simple("c38", "asan")]),
    "C36": dict(level="exploration", parts=[simple("c36", "asan")]),
    "C17": dict(level="model_checking", parts=[simple("c17", "asan")]),
    "C26": dict(level="exploration", parts=[with_ref("c26", "fast")]),
    "C27": dict(level="exploration", parts=[java_part("c27", "fast")]),
    "C30": dict(level="fault_enumeration", parts=[nginx_part("c30"), apache_part("c30a")]),
    "C33": dict(level="fault_enumeration", parts=[python_part()]),
    "C31": dict(level="exploration", parts=[wasm_part("c31")]),
    "C24": dict(level="fault_enumeration",
                parts=[tool_part("cbrunsli", 0), tool_part("dbrunsli", 1)]),
    "C32": dict(level="exploration", parts=[simple("c32", "fast"),
                                               dict(simple("c32", "asan"), env={"VERIF_HOSTILE": "1"})]),
    "C23": dict(level="exploration", parts=[groups_part("c23")]),
    "C22": dict(level="model_checking", parts=[groups_part("c22", "fast"),
                                               dict(groups_part("c22", "asan"), env={"VERIF_HOSTILE": "1"}),
                                               sched_part("c22s")]),
}
