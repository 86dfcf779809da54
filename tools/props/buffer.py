B="modsecurity/buffer.go"; T="modsecurity/transaction.go"
prop("B01","A body is read back exactly as it was written",
 "Whatever sequence of writes within the limits a body receives, reading it yields exactly the bytes written, in order, once, and then the end, through every way of reading it and from every offset it is positioned at, whether the data is in memory, in a temporary file or was moved there on the way.",
 ["inputs","histories","configurations"],"all write sequences, limits and read patterns",
 "Tests write one or two fixed strings; the failures need a write that crosses the memory limit and a second read.",
 [B],["Write @ "+B,"Read @ "+B,"Seek @ "+B,"toFile @ "+B],["HBufContent","HBufAppend","HBufReread","HBufSeek","HBufMany","HBufHuge"],
 ["one case of the largest size: up to 11000 rules, values, members or pieces and texts of 70-140 kB","up to 3 writes (thorough 4) of up to 3 arbitrary bytes with arbitrary small limits; reads in pieces of 1-4 bytes, all at once, and after seeking to any offset","up to 3 operations (thorough 4) in any order: reads of 1-3 bytes, seeks from the start, the position or the end by -3 to 3, the content as a whole","up to 20 writes of 0-700 bytes with memory limits of 0-1500 and body limits of 100-2000, one byte of any write arbitrary, read in pieces of 7-4096"],["bodies larger than the bound: code does not depend on size except at the two limits, which are crossed"])
prop("B02","A write beyond the limit is refused whole and leaves the body intact",
 "A write that would make a body longer than its limit is refused with an error and stores none of its bytes; later writes that fit are still taken, and the content stays readable.",
 ["inputs","histories","configurations"],"all sequences of writes and limits",
 "Tests cross the limit once.",
 [B,T],["Write @ "+B,"AppendRequestBody @ "+T,"AppendResponseBody @ "+T],["HBufLimits","HBufAppend","HBufMany"],
 ["up to 3 writes of up to 3 bytes, memory and file limits arbitrary small numbers in any relation; request and response bodies"],["limits near the int64 range"])
prop("B03","A body survives a failing temporary file",
 "If the temporary file cannot be created or takes only part of a write, the write reports an error, nothing is lost or stored twice of what had been accepted, and the body stays readable; once it is closed no file is left.",
 ["fault_sequences","histories"],"all points at which the file system fails, followed by any writes and reads",
 "Tests never make the file system fail.",
 [B],["toFile @ "+B,"Write @ "+B],["HBufFaults"],
 ["up to 3 writes; creation fails or the file takes only its first n bytes, at every point, and may recover; replayed natively with RLIMIT_FSIZE and a removed directory"],["errors of read, seek and close"])
prop("B04","Once a body is being read it takes no more writes",
 "After the first read or seek of a body every write to it is refused with an error and does not change what is read.",
 ["histories"],"all interleavings of reading and writing",
 "Tests never write after reading.",
 [B],["Write @ "+B,"Read @ "+B],["HBufReadOnly","HBufMany"],["up to 2 writes, each way of beginning to read, then further writes, in memory and in a file"],[])
prop("B05","Closing a body removes its temporary file and never fails without one",
 "Closing a body that went to a temporary file removes that file; closing one that never left memory does nothing and reports no error.",
 ["histories","configurations"],"all bodies, in memory or in a file, read or not",
 "Tests close one kind.",
 [B],["Close @ "+B],["HBufClose","HBufMany","HBufHuge"],["one case of the largest size: up to 11000 rules, values, members or pieces and texts of 70-140 kB","up to 2 writes on either side of the memory limit, read or not, then closed"],["transactions do not close their bodies: left to the caller"])
prop("B06","Inspecting a transaction leaves no temporary file",
 "However a request or response body is inspected, well-formed or damaged, whatever files it carries and wherever it is kept, there are never more temporary files than the bodies themselves need, and when the two bodies are closed there are none.",
 ["inputs","configurations","histories"],"all bodies, kinds of content, limits and orders of inspection",
 "Tests never look at the temporary directory.",
 [B,"modsecurity/variables/request_body_parser.go"],["Close @ "+B],["HNoFiles","HBufHuge"],
 ["one case of the largest size: up to 11000 rules, values, members or pieces and texts of 70-140 kB","urlencoded and multipart bodies with up to 4 files of 1-71 bytes under equal and different names, one byte arbitrary, whole or cut short; memory limits 0, 1, 60 and 1000; 3 variables fetched by a rule and again"],["a crash of the process"])

prop("B07","Inspecting a body does not disturb whoever reads it",
 "Whatever variables rules fetch from a request or response body, in whatever form and wherever it is kept, reading the body goes on where it was and yields the same bytes as if nothing had been inspected.",
 ["inputs","configurations","histories"],"all bodies, kinds of content, limits and points of reading",
 "Tests never read a body after inspecting it.",
 [B,"modsecurity/variables/request_body_parser.go"],["String @ "+B,"Seek @ "+B],["HBodyAfter"],
 ["urlencoded bodies and multipart bodies whole, cut short or with text after them, one byte arbitrary; memory limits 0, 3 and 1000; a variable in each of 3 phases; 0-5 bytes read before, 0 or 3 between inspections, the rest after"],["readers and rules running at the same time"])
