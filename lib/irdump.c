/* irdump: dump LLVM bitcode as JSON lines for the Python analyses.
   One line per global / struct / function.  */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <llvm-c/Core.h>
#include <llvm-c/BitReader.h>
#include <llvm-c/Target.h>
#include <llvm-c/DebugInfo.h>

static LLVMTargetDataRef TD;
static FILE *o;

/* value -> id map (open hashing) */
typedef struct { LLVMValueRef v; int id; } ent;
static ent *tab; static unsigned cap, cnt;
static void tab_reset (void) { if (tab) memset (tab, 0, cap * sizeof (ent)); cnt = 0; }
static void tab_put (LLVMValueRef v, int id);
static void tab_grow (void)
{
  ent *old = tab; unsigned oc = cap, i;
  cap = cap ? cap * 2 : 4096; tab = calloc (cap, sizeof (ent)); cnt = 0;
  for (i = 0; i < oc; i++) if (old[i].v) tab_put (old[i].v, old[i].id);
  free (old);
}
static void tab_put (LLVMValueRef v, int id)
{
  unsigned h;
  if (cnt * 2 >= cap) tab_grow ();
  h = ((unsigned long) v >> 4) * 2654435761u & (cap - 1);
  while (tab[h].v && tab[h].v != v) h = (h + 1) & (cap - 1);
  if (!tab[h].v) cnt++;
  tab[h].v = v; tab[h].id = id;
}
static int tab_get (LLVMValueRef v)
{
  unsigned h;
  if (!cap) return -1;
  h = ((unsigned long) v >> 4) * 2654435761u & (cap - 1);
  while (tab[h].v && tab[h].v != v) h = (h + 1) & (cap - 1);
  return tab[h].v ? tab[h].id : -1;
}

static void str (const char *s)
{
  fputc ('"', o);
  for (; *s; s++)
    if (*s == '"' || *s == '\\') fprintf (o, "\\%c", *s);
    else if ((unsigned char) *s < 32 || (unsigned char) *s > 126) fprintf (o, "\\u%04x", (unsigned char) *s);
    else fputc (*s, o);
  fputc ('"', o);
}
static void type (LLVMTypeRef t)
{
  switch (LLVMGetTypeKind (t))
    {
    case LLVMIntegerTypeKind: fprintf (o, "\"i%u\"", LLVMGetIntTypeWidth (t)); break;
    case LLVMPointerTypeKind: fputs ("\"ptr\"", o); break;
    case LLVMVoidTypeKind: fputs ("\"void\"", o); break;
    case LLVMFloatTypeKind: fputs ("\"float\"", o); break;
    case LLVMDoubleTypeKind: fputs ("\"double\"", o); break;
    case LLVMX86_FP80TypeKind: fputs ("\"fp80\"", o); break;
    case LLVMStructTypeKind:
      if (LLVMGetStructName (t)) { str (LLVMGetStructName (t)); break; }
      /* fallthrough */
    default: { char *s = LLVMPrintTypeToString (t); str (s); LLVMDisposeMessage (s); }
    }
}
static int is_sized_struct (LLVMTypeRef t)
{ return LLVMGetTypeKind (t) == LLVMStructTypeKind && !LLVMIsOpaqueStruct (t); }

static void operand (LLVMValueRef v);
/* GEP: {"b":base,"o":constoff,"v":[[operand,scale],...],"f":[[struct,idx],...]} */
static void gep (LLVMValueRef v)
{
  unsigned n = LLVMGetNumOperands (v), i;
  long long off = 0;
  LLVMTypeRef t = LLVMGetGEPSourceElementType (v);
  fputs ("{\"b\":", o); operand (LLVMGetOperand (v, 0));
  fputs (",\"v\":[", o);
  int first = 1;
  /* pass 1: variable parts */
  LLVMTypeRef cur = t;
  for (i = 1; i < n; i++)
    {
      LLVMValueRef ix = LLVMGetOperand (v, i);
      int c = LLVMIsAConstantInt (ix) != NULL;
      if (i == 1)
        {
          unsigned long long sz = LLVMABISizeOfType (TD, cur);
          if (c) off += LLVMConstIntGetSExtValue (ix) * (long long) sz;
          else { fprintf (o, "%s[", first ? "" : ","); operand (ix); fprintf (o, ",%llu]", sz); first = 0; }
        }
      else if (LLVMGetTypeKind (cur) == LLVMStructTypeKind)
        {
          unsigned k = LLVMConstIntGetZExtValue (ix);
          off += LLVMOffsetOfElement (TD, cur, k);
          cur = LLVMStructGetTypeAtIndex (cur, k);
        }
      else
        {
          cur = LLVMGetElementType (cur);
          unsigned long long sz = LLVMABISizeOfType (TD, cur);
          if (c) off += LLVMConstIntGetSExtValue (ix) * (long long) sz;
          else { fprintf (o, "%s[", first ? "" : ","); operand (ix); fprintf (o, ",%llu]", sz); first = 0; }
        }
    }
  fprintf (o, "],\"o\":%lld,\"t\":", off); type (t);
  fputs (",\"f\":[", o);
  cur = t; first = 1;
  for (i = 2; i < n; i++)
    {
      LLVMValueRef ix = LLVMGetOperand (v, i);
      if (LLVMGetTypeKind (cur) == LLVMStructTypeKind)
        {
          unsigned k = LLVMConstIntGetZExtValue (ix);
          fputs (first ? "[" : ",[", o); type (cur); fprintf (o, ",%u]", k); first = 0;
          cur = LLVMStructGetTypeAtIndex (cur, k);
        }
      else cur = LLVMGetElementType (cur);
    }
  fputs ("]}", o);
}
static const char *opname (LLVMOpcode c)
{
  switch (c)
    {
#define O(X,n) case X: return n;
      O(LLVMRet,"ret") O(LLVMBr,"br") O(LLVMSwitch,"switch") O(LLVMIndirectBr,"indirectbr")
      O(LLVMUnreachable,"unreachable") O(LLVMFNeg,"fneg") O(LLVMAdd,"add") O(LLVMFAdd,"fadd")
      O(LLVMSub,"sub") O(LLVMFSub,"fsub") O(LLVMMul,"mul") O(LLVMFMul,"fmul") O(LLVMUDiv,"udiv")
      O(LLVMSDiv,"sdiv") O(LLVMFDiv,"fdiv") O(LLVMURem,"urem") O(LLVMSRem,"srem") O(LLVMFRem,"frem")
      O(LLVMShl,"shl") O(LLVMLShr,"lshr") O(LLVMAShr,"ashr") O(LLVMAnd,"and") O(LLVMOr,"or") O(LLVMXor,"xor")
      O(LLVMAlloca,"alloca") O(LLVMLoad,"load") O(LLVMStore,"store") O(LLVMGetElementPtr,"gep")
      O(LLVMTrunc,"trunc") O(LLVMZExt,"zext") O(LLVMSExt,"sext") O(LLVMFPToUI,"fptoui") O(LLVMFPToSI,"fptosi")
      O(LLVMUIToFP,"uitofp") O(LLVMSIToFP,"sitofp") O(LLVMFPTrunc,"fptrunc") O(LLVMFPExt,"fpext")
      O(LLVMPtrToInt,"ptrtoint") O(LLVMIntToPtr,"inttoptr") O(LLVMBitCast,"bitcast") O(LLVMICmp,"icmp")
      O(LLVMFCmp,"fcmp") O(LLVMPHI,"phi") O(LLVMCall,"call") O(LLVMSelect,"select") O(LLVMVAArg,"vaarg")
      O(LLVMExtractValue,"extractvalue") O(LLVMInsertValue,"insertvalue") O(LLVMFreeze,"freeze")
      O(LLVMFence,"fence") O(LLVMAtomicCmpXchg,"cmpxchg") O(LLVMAtomicRMW,"atomicrmw") O(LLVMAddrSpaceCast,"addrspacecast")
      O(LLVMExtractElement,"extractelement") O(LLVMInsertElement,"insertelement") O(LLVMShuffleVector,"shufflevector")
      O(LLVMCallBr,"callbr")
    default: return "other";
    }
}
static void operand (LLVMValueRef v)
{
  int id;
  if (LLVMIsAConstantInt (v))
    {
      if (LLVMGetIntTypeWidth (LLVMTypeOf (v)) <= 64) fprintf (o, "%lld", LLVMConstIntGetSExtValue (v));
      else fputs ("{\"k\":\"bigint\"}", o);
      return;
    }
  if (LLVMIsAConstantPointerNull (v)) { fputs ("\"null\"", o); return; }
  if (LLVMIsAGlobalValue (v)) { size_t l; fputs ("{\"g\":", o); str (LLVMGetValueName2 (v, &l)); fputc ('}', o); return; }
  if (LLVMIsAUndefValue (v) || LLVMIsAPoisonValue (v)) { fputs ("\"undef\"", o); return; }
  if (LLVMIsAConstantFP (v)) { LLVMBool loses; 
      if (LLVMGetTypeKind (LLVMTypeOf (v)) == LLVMX86_FP80TypeKind)
        {
          char *t = LLVMPrintValueToString (v), *h = strstr (t, "0xK");
          fprintf (o, "{\"fp\":\"%.17g\",\"x80\":\"%s\"}", LLVMConstRealGetDouble (v, &loses), h ? h + 3 : ""); LLVMDisposeMessage (t); return;
        }
      fprintf (o, "{\"fp\":\"%.17g\"}", LLVMConstRealGetDouble (v, &loses)); return; }
  if (LLVMIsAConstantExpr (v))
    {
      LLVMOpcode c = LLVMGetConstOpcode (v); unsigned n = LLVMGetNumOperands (v), i;
      fprintf (o, "{\"ce\":\"%s\",", opname (c));
      if (c == LLVMGetElementPtr) { fputs ("\"gep\":", o); gep (v); }
      else { fputs ("\"a\":[", o); for (i = 0; i < n; i++) { if (i) fputc (',', o); operand (LLVMGetOperand (v, i)); } fputc (']', o); }
      fputc ('}', o);
      return;
    }
  if (LLVMIsABasicBlock (v)) { fprintf (o, "{\"bb\":%d}", tab_get (v)); return; }
  if (LLVMIsAConstantAggregateZero (v)) { fputs ("{\"zero\":1}", o); return; }
  if (LLVMIsAInlineAsm (v)) { size_t l; fputs ("{\"k\":\"asm\",\"asm\":", o); str (LLVMGetInlineAsmAsmString (v, &l)); fputc ('}', o); return; }
  id = tab_get (v);
  if (id >= 0) { fprintf (o, "\"%%%d\"", id); return; }
  fputs ("{\"k\":\"other\"}", o);
}
static void constant (LLVMValueRef v, int depth)
{
  if (LLVMIsAConstantDataArray (v) && LLVMIsConstantString (v))
    { size_t l, i; const char *s = LLVMGetAsString (v, &l); fputs ("{\"s\":\"", o);
      for (i = 0; i < l; i++) { unsigned char c = s[i];
        if (c == '"' || c == '\\') fprintf (o, "\\%c", c); else if (c < 32 || c > 126) fprintf (o, "\\u%04x", c); else fputc (c, o); }
      fputs ("\"}", o); return; }
  if (LLVMIsAConstantDataArray (v))
    { unsigned n = LLVMGetArrayLength (LLVMTypeOf (v)), i; fputs ("{\"arr\":[", o);
      for (i = 0; i < n; i++) { if (i) fputc (',', o); constant (LLVMGetAggregateElement (v, i), depth + 1); } fputs ("]}", o); return; }
  if (LLVMIsAConstantArray (v) || LLVMIsAConstantStruct (v))
    { unsigned n = LLVMGetNumOperands (v), i; fputs (LLVMIsAConstantArray (v) ? "{\"arr\":[" : "{\"st\":[", o);
      for (i = 0; i < n; i++) { if (i) fputc (',', o); constant (LLVMGetOperand (v, i), depth + 1); } fputs ("]}", o); return; }
  operand (v);
}

static void mdname (LLVMValueRef n)
{
  LLVMValueRef e[64]; unsigned l; const char *z;
  if (!n || !LLVMIsAMDNode (n) || LLVMGetMDNodeNumOperands (n) < 1) { fputs ("\"\"", o); return; }
  if (LLVMGetMDNodeNumOperands (n) > 64) { fputs ("\"?\"", o); return; }
  LLVMGetMDNodeOperands (n, e);
  if (e[0] && LLVMIsAMDString (e[0])) { z = LLVMGetMDString (e[0], &l); char *y = strndup (z, l); str (y); free (y); }
  else fputs ("\"\"", o);
}

/* type-based access tag: [base type, access type, offset] */
static void tbaa (LLVMValueRef i)
{
  static unsigned kind; LLVMValueRef n, e[8];
  if (!kind) kind = LLVMGetMDKindIDInContext (LLVMGetModuleContext (LLVMGetGlobalParent (LLVMGetBasicBlockParent (LLVMGetInstructionParent (i)))), "tbaa", 4);
  n = LLVMGetMetadata (i, kind);
  if (!n || LLVMGetMDNodeNumOperands (n) < 3 || LLVMGetMDNodeNumOperands (n) > 8) { fputs ("null", o); return; }
  LLVMGetMDNodeOperands (n, e);
  fputc ('[', o); mdname (e[0]); fputc (',', o); mdname (e[1]);
  fprintf (o, ",%lld]", e[2] && LLVMIsAConstantInt (e[2]) ? LLVMConstIntGetSExtValue (e[2]) : -1);
}

int main (int argc, char **argv)
{
  LLVMMemoryBufferRef mb; char *err = NULL; LLVMModuleRef m; LLVMContextRef C = LLVMContextCreate ();
  LLVMValueRef g, f; size_t l;
  LLVMContextSetDiscardValueNames (C, 0);
  o = argc > 2 ? fopen (argv[2], "w") : stdout;
  if (LLVMCreateMemoryBufferWithContentsOfFile (argv[1], &mb, &err)) { fprintf (stderr, "%s\n", err); return 2; }
  if (LLVMParseBitcodeInContext2 (C, mb, &m)) { fprintf (stderr, "bad bitcode %s\n", argv[1]); return 2; }
  TD = LLVMGetModuleDataLayout (m);
  for (g = LLVMGetFirstGlobal (m); g; g = LLVMGetNextGlobal (g))
    {
      LLVMTypeRef t = LLVMGlobalGetValueType (g);
      fputs ("{\"kind\":\"global\",\"name\":", o); str (LLVMGetValueName2 (g, &l));
      fputs (",\"type\":", o); type (t);
      if (LLVMTypeIsSized (t)) fprintf (o, ",\"size\":%llu", LLVMABISizeOfType (TD, t));
      if (LLVMGetTypeKind (t) == LLVMArrayTypeKind) { fprintf (o, ",\"alen\":%u,\"aelt\":", LLVMGetArrayLength (t)); type (LLVMGetElementType (t)); }
      fprintf (o, ",\"const\":%d,\"linkage\":%d", LLVMIsGlobalConstant (g), LLVMGetLinkage (g));
      if (LLVMGetInitializer (g)) { fputs (",\"init\":", o); constant (LLVMGetInitializer (g), 0); }
      fputs ("}\n", o);
    }
  for (f = LLVMGetFirstFunction (m); f; f = LLVMGetNextFunction (f))
    {
      LLVMBasicBlockRef b; LLVMValueRef i; int id = 0, bid = 0; unsigned k, np = LLVMCountParams (f);
      LLVMTypeRef ft = LLVMGlobalGetValueType (f);
      const char *fn = LLVMGetValueName2 (f, &l);
      if (!strncmp (fn, "llvm.dbg", 8)) continue;
      fputs ("{\"kind\":\"func\",\"name\":", o); str (fn);
      fprintf (o, ",\"decl\":%d,\"linkage\":%d,\"vararg\":%d,\"ret\":", LLVMIsDeclaration (f), LLVMGetLinkage (f), LLVMIsFunctionVarArg (ft));
      type (LLVMGetReturnType (ft));
      fputs (",\"params\":[", o);
      for (k = 0; k < np; k++) { if (k) fputc (',', o); type (LLVMTypeOf (LLVMGetParam (f, k))); }
      fputs ("]", o);
      { unsigned kind = LLVMGetEnumAttributeKindForName ("noreturn", 8);
        if (LLVMGetEnumAttributeAtIndex (f, LLVMAttributeFunctionIndex, kind)) fputs (",\"noreturn\":1", o); }
      if (LLVMIsDeclaration (f)) { fputs ("}\n", o); continue; }
      { unsigned dl; const char *dn = NULL; LLVMMetadataRef sp = LLVMGetSubprogram (f);
        if (sp) { LLVMMetadataRef file = LLVMDIScopeGetFile (sp); dl = 0; if (file) dn = LLVMDIFileGetFilename (file, &dl);
          fprintf (o, ",\"line\":%u,\"file\":", LLVMDISubprogramGetLine (sp)); if (dn) { char *z = strndup (dn, dl); str (z); free (z); } else fputs ("\"\"", o); } }
      tab_reset ();
      for (k = 0; k < np; k++) tab_put (LLVMGetParam (f, k), id++);
      for (b = LLVMGetFirstBasicBlock (f); b; b = LLVMGetNextBasicBlock (b))
        {
          tab_put (LLVMBasicBlockAsValue (b), bid++);
          for (i = LLVMGetFirstInstruction (b); i; i = LLVMGetNextInstruction (i)) tab_put (i, id++);
        }
      fputs (",\"blocks\":[", o);
      for (b = LLVMGetFirstBasicBlock (f); b; b = LLVMGetNextBasicBlock (b))
        {
          int first = 1;
          fputs (b == LLVMGetFirstBasicBlock (f) ? "[" : ",[", o);
          for (i = LLVMGetFirstInstruction (b); i; i = LLVMGetNextInstruction (i))
            {
              LLVMOpcode c = LLVMGetInstructionOpcode (i); unsigned n = LLVMGetNumOperands (i);
              if (c == LLVMCall)
                { LLVMValueRef cv = LLVMGetCalledValue (i); 
                  if (LLVMIsAFunction (cv) && !strncmp (LLVMGetValueName2 (cv, &l), "llvm.dbg", 8)) continue; }
              if (!first) fputs (",", o); first = 0;
              fprintf (o, "[%d,\"%s\",", tab_get (i), opname (c)); type (LLVMTypeOf (i)); fputc (',', o);
              /* extra */
              switch (c)
                {
                case LLVMGetElementPtr: gep (i); break;
                case LLVMICmp: { static const char *p[] = {"eq","ne","ugt","uge","ult","ule","sgt","sge","slt","sle"};
                    fprintf (o, "\"%s\"", p[LLVMGetICmpPredicate (i) - LLVMIntEQ]); break; }
                case LLVMFCmp: { static const char *p[] = {"false","oeq","ogt","oge","olt","ole","one","ord","uno","ueq","ugt","uge","ult","ule","une","true"};
                    fprintf (o, "\"%s\"", p[LLVMGetFCmpPredicate (i)]); break; }
                case LLVMPHI: { unsigned q, w = LLVMCountIncoming (i); fputc ('[', o);
                    for (q = 0; q < w; q++) fprintf (o, "%s%d", q ? "," : "", tab_get (LLVMBasicBlockAsValue (LLVMGetIncomingBlock (i, q)))); fputc (']', o); break; }
                case LLVMCall: operand (LLVMGetCalledValue (i)); n--; break;
                case LLVMAlloca: { LLVMTypeRef at = LLVMGetAllocatedType (i); fputc ('[', o); type (at); fprintf (o, ",%llu]", LLVMABISizeOfType (TD, at)); break; }
                case LLVMExtractValue: case LLVMInsertValue: { unsigned q, w = LLVMGetNumIndices (i); const unsigned *ix = LLVMGetIndices (i); fputc ('[', o);
                    for (q = 0; q < w; q++) fprintf (o, "%s%u", q ? "," : "", ix[q]); fputc (']', o); break; }
                case LLVMLoad: case LLVMStore: tbaa (i); break;
                default: fputs ("null", o);
                }
              fputs (",[", o);
              { unsigned q; for (q = 0; q < n; q++) { if (q) fputc (',', o); operand (LLVMGetOperand (i, q)); } }
              fputs ("],", o);
              /* debug loc: innermost line/file, plus inlined-at chain top */
              { LLVMMetadataRef loc = LLVMInstructionGetDebugLoc (i);
                if (loc)
                  {
                    LLVMMetadataRef sc = LLVMDILocationGetScope (loc), file = sc ? LLVMDIScopeGetFile (sc) : NULL; unsigned dl = 0;
                    const char *dn = file ? LLVMDIFileGetFilename (file, &dl) : "";
                    const char *sl = dn + dl; while (sl > dn && sl[-1] != '/') sl--;
                    fprintf (o, "%u,\"%.*s\"", LLVMDILocationGetLine (loc), (int) (dl - (sl - dn)), sl);
                  }
                else fputs ("0,\"\"", o); }
              fputs ("]", o);
            }
          fputs ("]", o);
        }
      fputs ("]}\n", o);
    }
  if (o != stdout) fclose (o);
  return 0;
}
