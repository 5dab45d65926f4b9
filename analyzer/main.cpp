// mbanalyze <bitcode> <repo root> <property> <tier> <out.json>
#include "engine.h"
#include "rules.h"
#include "llvm/Bitcode/BitcodeWriter.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/SourceMgr.h"
#include <cstdio>
#include <fstream>

using namespace sa;
namespace sa {
extern string gRepoRoot;
}

static string esc(const string& s)
{
    string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += c;
        } else if (c == '\n')
            r += "\\n";
        else if (c < 0x20 || c > 0x7e) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        } else
            r += c;
    }
    return r;
}
static void arr(std::ofstream& o, const char* n, const std::vector<string>& v)
{
    o << "\"" << n << "\":[";
    for (size_t i = 0; i < v.size(); i++)
        o << (i ? "," : "") << "\"" << esc(v[i]) << "\"";
    o << "]";
}

// Field 0 of a struct is addressed by an all-zero GEP, which the simplifier folds
// into its base pointer, losing the field.  --protect hides those GEPs behind
// calls before simplification; load() turns them back into GEPs.
// Field names are attached to every struct GEP at the same time, because linking
// merges structurally identical struct types.
static int protect(const char* in, const char* out)
{
    using namespace llvm;
    LLVMContext ctx;
    SMDiagnostic err;
    auto M = parseIRFile(in, err, ctx);
    if (!M)
        return 2;
    P.load(M.get());
    std::vector<GetElementPtrInst*> w;
    for (auto& F : *M)
        for (auto& I : instructions(F))
            if (auto* G = dyn_cast<GetElementPtrInst>(&I)) {
                auto names = P.gepFields(cast<GEPOperator>(G));
                bool any = false;
                std::vector<Metadata*> md;
                for (auto& n : names) {
                    any |= !n.empty();
                    md.push_back(MDString::get(ctx, n));
                }
                if (!any)
                    continue;
                if (G->hasAllZeroIndices() && !isa<AllocaInst>(G->getPointerOperand()->stripPointerCasts()))
                    w.push_back(G);
                else
                    G->setMetadata("mb.f", MDNode::get(ctx, md));
            }
    for (auto* G : w) {
        Value* V = G->getPointerOperand();
        for (auto& n : P.gepFields(cast<GEPOperator>(G))) {
            if (n.empty())
                continue;
            auto FC = M->getOrInsertFunction("mb.f0." + n, FunctionType::get(G->getType(), { V->getType() }, false));
            auto* F = cast<Function>(FC.getCallee());
            F->setDoesNotAccessMemory();
            F->setDoesNotThrow();
            F->setWillReturn();
            auto* C = CallInst::Create(FC, { V }, "", G);
            C->setDebugLoc(G->getDebugLoc());
            V = C;
        }
        G->replaceAllUsesWith(V);
        G->eraseFromParent();
    }
    std::error_code ec;
    raw_fd_ostream o(out, ec);
    WriteBitcodeToFile(*M, o);
    return ec ? 2 : 0;
}
static void unprotect(llvm::Module& M)
{
    using namespace llvm;
    std::vector<CallInst*> w;
    for (auto& F : M)
        for (auto& I : instructions(F))
            if (auto* C = dyn_cast<CallInst>(&I))
                if (auto* T = C->getCalledFunction())
                    if (T->getName().starts_with("mb.f0."))
                        w.push_back(C);
    auto* z = ConstantInt::get(Type::getInt32Ty(M.getContext()), 0);
    auto* ST = StructType::create(M.getContext(), { Type::getInt8Ty(M.getContext()) }, "mb.field0");
    for (auto* C : w) {
        auto* G = GetElementPtrInst::CreateInBounds(ST, C->getArgOperand(0), { z, z }, "", C);
        G->setMetadata("mb.f", MDNode::get(M.getContext(), { MDString::get(M.getContext(), ""), MDString::get(M.getContext(), C->getCalledFunction()->getName().substr(6)) }));
        G->setDebugLoc(C->getDebugLoc());
        C->replaceAllUsesWith(G);
        C->eraseFromParent();
    }
}

int main(int argc, char** argv)
{
    if (argc == 4 && string(argv[1]) == "--protect")
        return protect(argv[2], argv[3]);
    if (argc < 6) {
        fprintf(stderr, "usage: mbanalyze bitcode repo property tier out.json\n");
        return 2;
    }
    llvm::LLVMContext ctx;
    llvm::SMDiagnostic err;
    auto M = llvm::parseIRFile(argv[1], err, ctx);
    if (!M) {
        fprintf(stderr, "cannot read %s\n", argv[1]);
        return 2;
    }
    unprotect(*M);
    gRepoRoot = argv[2];
    string prop = argv[3];
    Report R;
    R.property = prop;
    bool thorough = string(argv[4]) == "thorough";
    try {
        P.load(M.get());
        auto& rs = rules();
        bool any = false;
        for (auto& r : rs)
            if (r.property == prop) {
                any = true;
                r.fn(R, thorough);
            }
        if (!any)
            R.errors.push_back("no rule registered for property " + prop);
    } catch (const std::exception& e) {
        R.errors.push_back(e.what());
    }
    std::ofstream o(argv[5]);
    o << "{\"property\":\"" << prop << "\",\n\"findings\":[";
    bool first = true;
    for (auto& f : R.findings) {
        o << (first ? "" : ",\n") << "{\"rule\":\"" << esc(f.rule) << "\",\"func\":\"" << esc(f.func) << "\",\"file\":\"" << esc(f.file) << "\",\"line\":" << f.line << ",\"detail\":\"" << esc(f.detail) << "\",\"msg\":\"" << esc(f.msg) << "\",\"trace\":\"" << esc(f.trace) << "\",\"id\":\"" << esc(f.id()) << "\"}";
        first = false;
    }
    o << "],\n";
    arr(o, "obligations", R.obligations);
    o << ",\n";
    arr(o, "functions", { R.functions.begin(), R.functions.end() });
    o << ",\n";
    arr(o, "sites", { R.sites.begin(), R.sites.end() });
    o << ",\n";
    arr(o, "errors", R.errors);
    o << ",\n";
    arr(o, "notes", R.notes);
    o << ",\n\"counts\":{";
    first = true;
    for (auto& c : R.counts) {
        o << (first ? "" : ",") << "\"" << esc(c.first) << "\":" << c.second;
        first = false;
    }
    o << "}}\n";
    return 0;
}
