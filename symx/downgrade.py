import re,sys
s=open(sys.argv[1]).read()
s=re.sub(r"\btrunc( nuw| nsw)+ ","trunc ",s)
s=re.sub(r"\bgetelementptr (inbounds )?(nusw )?(nuw )+",lambda m:"getelementptr "+(m.group(1) or ""),s)
s=re.sub(r" range\(i\d+ [^)]*\)","",s)
s=re.sub(r"^\s+#dbg_.*\n","",s,flags=re.M)
s=re.sub(r", !dbg ![0-9]+","",s)
s=re.sub(r" !dbg ![0-9]+ \{"," {",s)
s=re.sub(r"^!\d+ = .*\n","",s,flags=re.M)
s=re.sub(r"^!llvm\..*\n","",s,flags=re.M)
s=re.sub(r"(, ![a-zA-Z_.]+ !\d+)+(?=\n|$)","",s)
s=re.sub(r"^.*@llvm.experimental.noalias.scope.decl\(metadata.*\n","",s,flags=re.M)
open(sys.argv[2],"w").write(s)
