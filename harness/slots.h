// An object whose slots and methods routes can target (needs moc).
#ifndef SLOTS_H
#define SLOTS_H
#include <QtCore/QObject>
#include "HttpConnection.h"
class SlotTarget : public QObject
{
	Q_OBJECT
public:
	int publicCalls, privateCalls, invokableCalls, overloadCalls; Pillow::HttpConnection* last; bool answer;
	SlotTarget() : publicCalls(0), privateCalls(0), invokableCalls(0), overloadCalls(0), last(0), answer(true) {}
	int calls() const { return publicCalls + privateCalls + invokableCalls + overloadCalls; }
	Q_INVOKABLE void invokable(Pillow::HttpConnection* c) { ++invokableCalls; take(c, "invokable"); }
public slots:
	void slot(Pillow::HttpConnection* c) { ++publicCalls; take(c, "slot"); }
	void overloaded() { ++overloadCalls; }
	void overloaded(Pillow::HttpConnection* c) { ++publicCalls; take(c, "overloaded"); }
	void wrong(int) { ++overloadCalls; }
private slots:
	void hidden(Pillow::HttpConnection* c) { ++privateCalls; take(c, "hidden"); }
private:
	void take(Pillow::HttpConnection* c, const char* n) { last = c; if (answer) c->writeResponse(200, Pillow::HttpHeaderCollection(), n); }
};
#endif
