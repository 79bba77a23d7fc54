#ifndef HANDLERS_H
#define HANDLERS_H
#include "qtlib.h"
#include "reply.h"
#include "HttpHandler.h"
#include "HttpHandlerSimpleRouter.h"
std::vector<mc::Suite> suitesC11(mc::Tier); std::vector<mc::Suite> suitesC12(mc::Tier); std::vector<mc::Suite> suitesC13(mc::Tier); std::vector<mc::Suite> suitesC14(mc::Tier); std::vector<mc::Suite> suitesC15(mc::Tier);

inline std::string scratchDir() { const char* s = getenv("MC_SCRATCH"); return s && *s ? s : "/tmp"; }

// A request in service on a connection of its own.
struct Ask
{
	Rig rig;
	explicit Ask(const std::string& bytes, bool autoDrain = true) { rig.lookDecoded = false; rig.dev->autoDrain = autoDrain; rig.start(); rig.dev->give(bytes); }
	bool ready() const { return rig.count('R') > 0; }
	bool untouched() const { return rig.dev->out.empty() && rig.conn->state() == Pillow::HttpConnection::SendingHeaders; }
};
#endif
