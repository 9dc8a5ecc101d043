import json, subprocess
L = subprocess.run(["git","-C","/repo","log","--format=%h %s"],capture_output=True,text=True).stdout.splitlines()
h = {l.split(" fix: ")[1]: l.split()[0] for l in L if " fix: " in l}
F = [
("C21","let ParallelExecutor workers wake up and exit on destruction","destroying the executor while workers wait on the condition variable never wakes them: the destructor hangs in join"),
("C22","do not share status variable between parallel group decoding tasks","tasks of DecodeGroups write one shared status variable (data race; a failure of one group can be overwritten)"),
("C09","reject header value tags encoded as sections","a known header value encoded with the section wire type is skipped as unknown and later reported as merely missing / accepted as duplicate"),
("C10","EncodeBrunsli treats partial consumption by the sink as an error","EncodeBrunsli returned success when the sink consumed part of the data"),
("C03","restore empty payload of fallback (bypass) stream","a fallback stream with an empty payload could not be serialised / decoded by the streaming decoder"),
("C03","streaming decoder keeps own copy of fallback payload","streaming decoder kept a pointer into the caller's input block for the fallback payload (use after free when the block is released between calls)"),
("C28","fill available output with fallback payload before asking for more","streaming decoder asked for more output with space left while emitting a fallback payload"),
("C05","streaming decoder does not report completion on truncated input","streaming decoder reported DONE for some truncated streams"),
("C04","streaming decoder waits for metadata before serialization","streaming decoder started serialisation before a late metadata section and dropped it / failed"),
("C08","encoder reports buffer overflow instead of writing out of bounds","too small destination: section encoders wrote past the end of the buffer"),
("C08","raise upper bound of encoded block size","GetMaximumBrunsliEncodedSize smaller than the encoding of pictures with dense extreme coefficients"),
("C22","allocate enough space for parts of group encoding","EncodeGroups sized the buffers of the parts too small: overflow for pictures with small groups"),
("C22","group decoding requires all preceding sections","DecodeGroups crashed (division by zero, wild read) on data in which a section before the groups was missing, empty or of the wrong kind"),
("C06","do not start serialization of streams without DC section","streaming decoder dereferences null when the AC tag precedes the DC section"),
("C25","skip application and comment segments when only tables are read","tables-only parse interpreted the payload of APP/COM segments (thumbnails) as markers and failed or took their tables"),
("C25","skip scan headers when only tables are read","tables-only parse searched for markers inside the scan header: a header ending in 0xff made it fail on files the full read accepts"),
("C02","padding bits limit takes number of scans into account","a conforming progressive file with restart intervals and zero padding bits was refused: the limit on padding bits assumed a single pass over each component"),
("C24","tools report failure when size of input can not be determined","cbrunsli and dbrunsli aborted on a directory or when ftell fails, and took only the first bytes of inputs of 4 GiB and more (size truncated to int)"),
("C30","ngx_brunsli: find image/x-j anywhere in the Accept header","a client whose Accept header lists image/x-j anywhere but at the end was not given the pre-compressed file (the search compared the terminating zero too)"),
("C30","ngx_brunsli: look past longer types that start with image/x-j","a client that lists image/x-jng before image/x-j was not given the pre-compressed file"),
("C30","mod_brunsli: do not crash on media range without type","a request with Accept: ; made the Apache module dereference null"),
("C33","jxl_library_patches: skip empty entries of sys.modules","importing the Python patches failed if any entry of sys.modules was None"),
("C33","jxl_library_patches: pass positional arguments to cv2.imread","the patched cv2.imread refused positional flags (imread(name, 0)) for every file"),
("C32","memory estimate of missing input is 0","the memory estimate of missing input (null data) was 3, the number of an error code, instead of 0"),
]
json.dump(dict(fixed=["fixed: property=%s %s %s"%(p,h[s],w) for p,s,w in F],open=[]),open("known_findings.json","w"),indent=1)
