G = " Bounded: random sessions of the tier's size plus every case of the listed exhaustive models; trusts the specification, TLC, and Rust's float/decimal conversion."
NOTE = {
"C01": "Every value of the bounded model, and random values, decode back to what the specification says they denote, under both encoders, modes and all delimiters." + G,
"C02": "Fold/expand identity checked on the specification by TLC for all values of the bounded model and on the library for all of them plus random ones." + G,
"C03": "Every output line is compared with the line the specification's encoder machine writes." + G,
"C04": "All strings up to the model's length over two alphabets, in twelve positions, and random Unicode strings." + G,
"C05": "All decimals of the bounded grid and random 64-bit integers and doubles; doubles with two equally near shortest decimals are left out." + G,
"C06": "All tokens up to the model's length over three alphabets in eight positions, and random tokens in eleven positions." + G,
"C07": "All bounded documents with headers, items and rows, every canonical document with one wrong length, and random perturbed documents." + G,
"C08": "Strict outcome compared with the specification on all bounded line sequences and on randomly damaged documents; in layouts whose meaning the specification leaves open (few in strict mode) only ToonKept is claimed: no word of an accepted document is dropped." + G,
"C09": "All texts up to the model's length over four alphabets and random texts: a value, or an error naming an existing line; hangs and crashes are detected." + G,
"C10": "Strict acceptance implies the same lenient value on all bounded line sequences and random texts." + G,
"C11": "All bounded sequences of dotted, quoted and plain fields, and random ones, in both modes." + G,
"C12": "Every line of folded output compared with the specification's folding rule on all bounded values and random ones." + G,
"C19": "Documents mixing delimiters: outcome compared with the specification and across the option's three delimiters." + G,
"C20": "Decode, encode, decode, encode cycles on all bounded line sequences and random accepted texts." + G,
"C21": "All bounded sequences of well-formed lines and random non-canonical renderings of values." + G,
}
NOTE.update({
"C13": "Every call tree of the bounded serde model and random typed values (run-time described and derived types): the text must be the specification's canonical encoding of the tree's JSON equivalent, from both encoders." + G,
"C14": "Typed decoding of every bounded tree's text as its own and as other types, and of random documents as fitting and unfitting types, against the specification's conversion and serde_json's; own text must read back as itself." + G,
"C15": "The library is built six times (default, performance, alloc, std, direct, all features); equal sessions are judged against the specification and compared between builds. The direct deserializer is compared on the documents it supports; its recorded departures are in KNOWN_FINDINGS." + G,
})
NOTE.update({
"C16": "Every bounded schedule of reads, interruptions, faults and short writes (MCIO), and random ones, replayed through scripted readers and writers; the log of I/O calls and the outcome are judged by the I/O specification." + G,
"C17": "The command-line program is built from the tree and run on generated files, pipes and options; every outcome and output byte is judged by the specification of the tool." + G,
"C18": "The wasm functions are compiled natively with a stand-in for the JavaScript error type and called with generated text and options, including at, below and above the input-size limit." + G,
})
TECHS = {}
PENDING = {}
NOTE["C22"] = "All schedules of two to three calls (begun, nested, failed and abandoned at every gate) on up to three threads, and random histories and truly parallel bursts of up to sixty calls, each outcome compared with the specification's system of calls. Parallel bursts sample the hardware's interleavings; they do not enumerate them." + G
for p in ("C01", "C03", "C07", "C08", "C09", "C10", "C15", "C16", "C17", "C18", "C20"):
    NOTE[p] = NOTE[p].replace(G, " Documents of up to 131072 parts (ToonBulk) are judged by their runs." + G)
