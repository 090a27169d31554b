NOTES = {
    "C24": "Holds for every family within the bounds stated in DESIGN.md (complete enumeration, no sampling), at four sizes each: growth beyond the largest size is not covered. The counts are exact and repeatable; basic blocks of the standard library's precompiled functions are not counted, the bytes they allocate, move and compare are.",
}
T = "; every trace of an explicit reference machine replayed on the implementation"
def mc(s): return ("bounded exhaustive enumeration of " + s + T, "model_checking")
CLAIMED.update({
    "C01": mc("conditional templates and condition values"),
    "C02": mc("loop templates, iterables and loop variables"),
    "C03": mc("scope structures (with, for, include, shadowing)"),
    "C04": mc("include graphs, depths and limits"),
    "C05": mc("include chains against every depth limit"),
    "C06": mc("paths, containers and access kinds"),
    "C07": ("bounded exhaustive enumeration of source texts, token sequences and delimiter configurations run on the implementation with termination, panic and process-death monitors", "exploration"),
    "C08": mc("raw text, comments and trim markers"),
    "C09": mc("delimiter configurations and texts over their characters"),
    "C10": mc("token sequences against a reference grammar"),
    "C11": mc("literal spellings"),
    "C12": mc("filter signatures, arguments and pipelines"),
    "C13": mc("emitted values, formatter behaviours and default formatters"),
    "C14": ("exhaustive fault enumeration: every write call of a rendering is failed, cut short or interrupted in turn (and in bounded combinations), judged against an explicit reference machine", "fault_enumeration"),
    "C15": mc("histories of registry operations (a pair of maps as the reference)"),
    "C16": mc("trees of serializer calls, map keys and conversions"),
    "C17": mc("mistakes, places and texts around them"),
    "C18": mc("templates and contexts, each in every way of rendering"),
    "C22": mc("templates with recording user functions"),
    "C23": mc("histories of compiling, registering, moving and dropping templates"),
    "C19": ("stateless exploration of the implementation under a controlled scheduler: every schedule up to a preemption bound, at calls of user code and at every basic block, every nesting of renderings in user code, every history of failures", "model_checking"),
    "C20": mc("invocations of the value! macro, each compiled and run"),
    "C21": mc("templates, names, values and functions under every combination of the features"),
    "C24": ("bounded exhaustive enumeration of families of growing templates, contexts and engines, each executed at four sizes with exact counts of steps, memory and stack", "exploration"),
})
