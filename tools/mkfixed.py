import json,subprocess
log=subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s"],text=True).splitlines()[1:]
m={"8b376b0":"C22","6ce825b":"C22","9e33719":"C21","07d4237":"C21","69b9030":"C21","76a1ba2":"C21","f31568f":"C20","46c1fd1":"C20","e1ba9a8":"C20","812f2ff":"C20","22e4336":"C20","2143a50":"C20","585acf1":"C19","d0abbbc":"C17","ef0b09c":"C17","0472336":"C18","b7a9926":"C17","b9a61c6":"C17","258465f":"C17","8bf7562":"C17","4b07ea9":"C16","4a825c2":"C16","4c4798e":"C16","7f4d92e":"C16","ee0055a":"C01","4ce0997":"C01","351796e":"C01","8482334":"C05","38332ad":"C05","e9e66c3":"C05","c3c6978":"C05","e1eac18":"C03","a071565":"C04","dbc8e86":"C04","0040753":"C03","91dee63":"C03","e837f88":"C14","491dd65":"C03","01fc100":"C03","4cba098":"C10","7c0ba4d":"C14","bcef6b4":"C12","b90fcf7":"C14","46d9a3b":"C06","90953e9":"C06","1b04fbc":"C14","8ab51f7":"C18","f3f8b20":"C02","22c99e6":"C14","8fec24c":"C14","c221928":"C15"}
what={
"8b376b0":"after a document is edited or removed its old requirements remained: references to them were ambiguous or dead, the index had dead entries",
"6ce825b":"in parallel builds a requirement defined in two documents was not reported as ambiguous, one of the definitions was lost",
"76a1ba2":"an import which is used in markup within an array or tuple was reported as unused",
"69b9030":"an unused import was not reported if a string has the name of the package as its value",
"07d4237":"unary minus before an array access was reported as misleading",
"9e33719":"issues of union types used as elements of arrays were not reported",
"f31568f":"files which cannot be read were left out of the document without an error",
"46c1fd1":"field_value_for gave None for 0, false and empty lists",
"e1ba9a8":"references adjacent to other text were not cross-references",
"812f2ff":"fields were not part of the directive of their record, the text became part of the last field",
"22e4336":"records with the name of a section were lost; sections with names which are empty or RST syntax failed internally or were no headlines",
"2143a50":"records which follow a subsection, or have no section, ended up in the last subsection",
"585acf1":"naming a file twice on the command line failed internally or gave errors",
"d0abbbc":"other files were mentioned relative to something which is not a directory, or depending on the order of registration",
"ef0b09c":"messages mentioning builtin entities contained a path depending on the working directory",
"0472336":"iter_record_objects_by_section left out files and sections from the second iteration on",
"b7a9926":"a location at the end of a line ended in the next line",
"b9a61c6":"the line after the erroneous one was quoted if the location is the end of a line",
"258465f":"problems in the first line of triple quoted markup were located at the start of the string",
"8bf7562":"the end location of constructs was wrong if a newline is among the first two characters of the file",
"4b07ea9":"--verify failed internally for integer literals of more than 32 bits",
"4a825c2":"counter-examples showed strings with quotes unescaped",
"4c4798e":"--verify failed internally for quantifiers over division, index, range test or oneof",
"7f4d92e":"--verify failed internally when enumerations or tuples were only reachable through references",
"ee0055a":"trailing whitespace of the first line of a triple quoted string was kept",
"4ce0997":"/*/ was lexed as a complete comment",
"351796e":"a triple quoted string ending (or not terminated) at the end of the file was not recognised",
"8482334":"index equal to the length of the array crashed instead of being an error",
"38332ad":"null as the predicate of a quantifier was passed over",
"e9e66c3":"null as right operand of and/or/implies was passed over",
"c3c6978":"null as parameter of oneof was passed over",
"e1eac18":"equality between a record type and its extension was rejected",
"a071565":"references to different records of the same name / subtypes compared wrongly",
"dbc8e86":"membership in an array of tuples or references did not agree with equality; ill typed elements were accepted",
"0040753":"a quantified expression as the exponent or error message bound was treated as static",
"91dee63":"inherited components could not be accessed via a reference",
"e837f88":"a file ending in an array bound, check or tuple failed internally",
"491dd65":"x in null failed internally",
"01fc100":"Integer() or Decimal() with the wrong number of parameters failed internally",
"4cba098":"an array with an upper bound of 0 accepted any number of elements",
"7c0ba4d":"lint of a tuple containing an enumeration failed internally",
"bcef6b4":"a tuple value with missing separators of non-optional components was accepted",
"b90fcf7":"a package whose files have errors in the preamble failed internally",
"46d9a3b":"the tuple checks of the elements after the first failing one in an array were not evaluated",
"90953e9":"the checks of tuples nested in tuples were not evaluated",
"1b04fbc":"integers of more than 4300 digits failed internally",
"8ab51f7":"the string form of tuple values was wrong or failed internally",
"f3f8b20":"a trailing comma in a parameter list was accepted",
"22c99e6":"an import of an unknown package was reported, but processing succeeded",
"8fec24c":"lint of a tuple with an x separator after an integer and one more separator failed internally",
"c221928":"the hints about several unused imports of a file came in a different order on every run"}
fixed=[]
for l in log:
    h=l.split()[0]
    fixed.append("fixed: property=%s %s %s"%(m[h],h,what[h]))
WHAT = ("checks which dereference a reference are verified with knowledge of "
        "fatal checks that come later in the same block, although they are "
        "evaluated before them, so that a problem is not reported")
findings = [
  {"id": "C16-phase-%u" % n, "property": "C16", "status": "known",
   "signatures": ["missed: " + c],
   "what": WHAT + ": " + c, "where": "trlc/vcg.py VCG.checks_on_composite_type",
   "input": "checks in one block: " + c}
  for n, c in enumerate([
    "error r.n > j, fatal j != null",
    "error 10 / i > r.n, warning b, fatal i != 0",
    "error i / r.n > 0, fatal false"])]
json.dump({"findings":findings,"fixed":fixed},open("/verif/known_findings.json","w"),indent=1)
