import json,subprocess
M={
"554ec61":("C02","matching slices and the remaining text were computed from lengths, wrong with repeated or extra whitespace"),
"dfbb7d9":("C01","literal 'a' matched the start of the word 'ab' (literals matched parts of words)"),
"147e807":("C02","matching slices were set during lookahead and without match locations"),
"f6a9084":("C06","find_matching_part returned lower-cased speech"),
"1589a5f":("C01","repeats of optional, nullable or re-used expansions didn't terminate or rejected valid speech"),
"952c743":("C03","rules kept the match data of incomplete matches"),
"b502a13":("C01","was_matched was True for rules with an optional root that didn't match"),
"1a82f30":("C23","children += [...] raised a TypeError"),
"60719b1":("C04","setting the text of a literal after matching had no effect on matching"),
"999160b":("C13","copies of case-sensitive literals were case-insensitive"),
"dda0530":("C01","alternatives of zero weight or removed from a weighted set still matched or were generated"),
"0d1f4d8":("C18","Repeat.generate raised for some random numbers and generated extra spaces"),
"f3393cd":("C02","equal expansions in a repeat shared their repetition data"),
"e6e2021":("C04","weights of alternatives were lost after modifying or copying them"),
"d3db30c":("C12","equal expansions had different hash values"),
"d354277":("C25","invalidate_calculations kept stored calculations"),
"901bb5d":("C11","an error in compile_as_root_grammar left rules hidden"),
"2860390":("C15","remove_rule removed nothing or the wrong object if given an equal rule"),
"c85b1b9":("C04","rules matched through references used the old expansions of replaced and removed rules"),
"44cb2d5":("C04","references by name that were added to the expansion of a rule later were not resolved"),
"2e05410":("C16","names with ',' and '=' were rejected"),
"7f0c8c6":("C16","names with surrounding whitespace and grammars with reserved names were allowed"),
"e406b5d":("C08","tags with braces, backslashes or several words didn't survive compiling and parsing"),
"902af24":("C09","alternatives, weights and repeats were parsed with the wrong precedence"),
"2652c63":("C05","matched tags of nested repetitions and repeated references were lost"),
"4d38eaf":("C01","rules of only optional parts didn't match the empty string or matched anything"),
"370eb15":("C02","matching slices included trailing whitespace"),
"6382dad":("C02","optional or repeated parts that failed kept match data of the attempt"),
"e2f9005":("C06","find_matching_part kept data of failed attempts"),
"54eeaaf":("C03","disabled rules kept the data of earlier matches"),
"453e842":("C04","setting the name of a reference after matching had no effect"),
"7eff6b5":("C04","repeats used ancestors they no longer had"),
"def92e7":("C05","matched tags of rules referenced inside and outside of repeats were lost"),
"1dc4487":("C04","rules outside of grammars matched the old expansions of the rules they reference"),
"1deeb70":("C08","compiled repeats with tags, '(a)+ {t}', couldn't be parsed"),
"4583859":("C08","tags of sequences were compiled for the last part only"),
"31ba9ac":("C09","comments at the end of grammars were rejected"),
"f60d4eb":("C10","valid_grammar raised a TypeError for negative weights"),
"f8ae2e2":("C12","comparing rules and grammars with other objects raised an AttributeError"),
"3176479":("C12","sets with different weights were equal after alternatives were modified"),
"c4fc231":("C13","expansions of deep copied rules were not linked to the copies"),
}
import sys
log=subprocess.check_output(["git","-C","/repo","log","--format=%h %s","31d85e5..HEAD"],text=True).splitlines()
fixed=[]
try: extra=json.load(open("/verif/fixes.json"))
except Exception: extra={}
M.update({k:tuple(v) for k,v in extra.items()})
for l in reversed(log):
    h,s=l.split(" ",1)
    h7=h[:7]
    if h7 not in M: print("MISSING",l); continue
    p,w=M[h7]
    fixed.append("fixed: property=%s %s %s"%(p,h7,w))
try: old=json.load(open("/verif/known_findings.json"))["findings"]
except Exception: old=[]
json.dump({"findings":old,"fixed":fixed},open("/verif/known_findings.json","w"),indent=1)
print(len(fixed))
