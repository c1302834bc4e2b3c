#pragma once
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <memory>
#include <string>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <functional>

static const uint64_t SLOT = 1ull << 24, BASE = 1ull << 40, OFFS = 1ull << 22, MAXOBJ = 8u << 20;

enum OKind : uint8_t { OGlobal, OStack, OHeap, OHeapNew, OHeapNewArr, OFunc, OMisc };
struct Obj {
  uint64_t addr; uint32_t size; OKind kind; bool ro = false, alive = true;
  std::vector<uint8_t> b, st;  // st: 0 uninit 1 concrete 2 symbolic
  std::vector<E> s;
  const llvm::Value* site = nullptr; llvm::Function* fn = nullptr;
  // happens-before race detection (per byte), allocated lazily
  struct Acc { uint16_t wt = 0xffff; uint32_t wc = 0; uint32_t rc[6] = {0,0,0,0,0,0}; };
  std::shared_ptr<std::map<uint32_t, Acc>> acc;
};
struct Page { std::shared_ptr<Obj> o[64]; };

struct KInst {
  llvm::Instruction* I; unsigned op; int dest; std::vector<int> ops; // >=0 reg, <0 const index ~x
  unsigned w = 0;           // result width in bits (0 aggregate/void)
  uint64_t sz = 0;          // memory size for load/store/alloca
  int64_t gepOff = 0; std::vector<std::pair<int, int64_t>> gepIdx; // (operand, scale)
  llvm::Function* callee = nullptr; int builtin = -1; int t0 = -1, t1 = -1; // targets
  llvm::Type* ty = nullptr; unsigned pred = 0; bool vol = false, atomic = false, hit = false;
};
struct KFunc {
  llvm::Function* F; std::vector<KInst> insts; std::vector<int> bbStart; std::map<llvm::BasicBlock*, int> bbIdx;
  std::vector<E> consts; int nregs = 0; bool isRepo = false; uint64_t execs = 0; std::string file, dname;
};
struct Frame {
  KFunc* f; int ip = 0; int bb = 0; std::vector<E> regs; std::vector<uint32_t> allocas; std::vector<E> va;
};
enum TStat : uint8_t { TRun, TMutex, TCond, TJoin, TDone, TSem, TRw, TSleep, TAll };
struct Thread {
  std::vector<std::shared_ptr<Frame>> st; TStat stat = TRun; uint64_t wait = 0, wait2 = 0; bool timed = false; uint8_t phase = 0; uint8_t sleeps = 0;
  uint64_t icount = 0, grantAt = ~0ull; bool detached = false, cancelReq = false, joined = false; E ret = nullptr; uint64_t errnoAddr = 0; std::map<uint64_t, uint64_t> tls;
  std::vector<uint64_t> caught; std::vector<uint32_t> vc; bool started = false;
};
struct Mutex { int owner = -1; int count = 0; int type = 0; bool inited = false; int readers = 0; };
struct SemS { uint32_t v; };
struct State {
  std::vector<std::shared_ptr<Page>> pages; uint32_t nobj = 1;
  std::vector<Thread> th; int cur = 0;
  std::map<uint64_t, Mutex> mx; std::map<uint64_t, std::vector<uint32_t>> syncvc;
  std::vector<E> pc; std::unordered_set<E> pcset; std::unordered_map<E, E> known; Model model;
  std::vector<std::pair<E, std::string>> inputs; std::vector<std::pair<std::string, E>> obs;
  std::set<std::string> reached; uint64_t steps = 0; uint32_t uninitCtr = 0; int preempt = 0, spurious = 0; uint32_t depth = 0;
  std::map<uint64_t, int> excRef; std::map<uint64_t, uint64_t> excType; std::vector<std::string> trace;
  int64_t liveHeap = 0; bool atomicSec = false; uint64_t allocBytes = 0;
  std::map<std::string, E> vars; std::map<uint64_t, int> condClock; uint32_t nDeadline = 0;
};
struct PathEnd {};
