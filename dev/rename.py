# rename identifiers by word in files; run cv all
import subprocess,sys,re,os
SCR="/tmp/quickrepo"
env=dict(os.environ,GOTOOLCHAIN="local",GOPROXY="off",GOSUMDB="off",GOFLAGS="-mod=mod -buildvcs=false",CGO_ENABLED="0",SPEC="/verif/spec",VERIF_REPO=SCR)
def sh(c,**k): return subprocess.run(c,shell=True,text=True,errors="replace",stdout=subprocess.PIPE,stderr=subprocess.STDOUT,env=env,**k).stdout
R=[("fn trim",[("cmd/coin/utils.go","trim","trimRange"),("cmd/coin/register.go",r"(?<!\.)(?<!\) )trim\(","trimRange("),("cmd/coin/balance.go",r"(?<!\.)(?<!\) )trim\(","trimRange(")]),
("method sanitize",[("cmd/coin/totals.go","sanitize","dropEmpty"),("cmd/coin/register.go","sanitize","dropEmpty")]),
("method findPosting",[("account.go","findPosting","lookupPosting")]),
("field finished",[("parser.go","finished","done")]),
("field current",[("cmd/coin/totals.go","current","last")]),
("type timeTotal",[("cmd/coin/totals.go","timeTotal","periodTotal")]),
("type options",[("cmd/coin/postings.go",r"\*options","*printOptions"),("cmd/coin/postings.go","type options","type printOptions"),("cmd/coin/register.go","options{","printOptions{")]),
("var cwd",[("cmd/coin/postings.go","cwd","workDir")]),
("var tagREX",[("tags.go","tagREX","tagRegex")]),
("field from/to modify",[("cmd/coin/modify.go",r"cmd\.from\b","cmd.src"),("cmd/coin/modify.go",r"from, to         \*","src, to          *")]),
("fn writeStrings",[("transaction.go","writeStrings","writeAll"),("posting.go","writeStrings","writeAll")]),
("fn printVerdict",[("cmd/coin/test.go","printVerdict","reportVerdict")]),
("const disallowed",[("commodity.go",r"\bdisallowed\b","mustQuote")]),
]
sh("rm -rf /tmp/quickrepo && cp -a /repo /tmp/quickrepo")
for n,es in R:
    if len(sys.argv)>1 and not any(a in n for a in sys.argv[1:]): continue
    sh("git checkout -q -- .",cwd=SCR)
    for f,o,w in es:
        p=SCR+"/"+f; s=open(p).read(); pat=o if re.search(r"\W",o) else r"\b%s"%o
        s2,k=re.subn(pat,w,s)
        if not k: print(n,"no match",f,o)
        open(p,"w").write(s2)
    v=sh("go vet . ./cmd/coin 2>&1 | grep -v '^#' | head -3",cwd=SCR).strip()
    a=[l for l in sh("/tmp/cv all").splitlines() if "ALARM" in l]
    print(n,len(a),"BUILD "+v if v else "",[l.split()[1] for l in a][:8],flush=True)
    for l in a[:2]: print("     ",l[:260])
