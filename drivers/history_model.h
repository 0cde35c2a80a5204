// list of numbered entries: what the history of a session should hold
#pragma once
#include "common.h"
using V = std::vector<std::string>;
struct Ent { std::size_t id; std::string text; bool session; };
struct Model
{
    std::size_t cap, next = 0; std::vector<Ent> e;   // oldest first
    bool browsing = false; std::size_t cur = 0;      // cur: distance from the newest
    std::vector<Ent> before; std::size_t nextBefore = 0;   // state when browsing began, and state to go back to
    bool forgettable = false; std::vector<Ent> undo; std::size_t undoNext = 0;
    void push(const std::string& t, bool s) { e.push_back({next++, t, s}); if (e.size() > cap) e.erase(e.begin()); }
    std::vector<Ent> without_edit_line() const
    { auto r = before; for (auto& x : r) for (auto& y : e) if (y.id == x.id) x.text = y.text; return r; }
    void enter(const std::string& t)
    {
        forgettable = false;
        if (browsing)
        {
            undo = without_edit_line(); undoNext = nextBefore;
            if (e.size() > 1 && e[e.size() - 2].text == t) { e = undo; next = undoNext; }
            else { e.back().text = t; e.back().session = true; forgettable = true; }
            browsing = false;
        }
        else if (e.empty() || e.back().text != t) { undo = e; undoNext = next; push(t, true); forgettable = !e.empty(); if (cap == 0) forgettable = false; }
        cur = 0;
    }
    void forget() { if (forgettable) { e = undo; next = undoNext; forgettable = false; } }
    std::string up(const std::string& t)
    {
        if (!browsing)
        {
            if (cap == 0) return t;
            before = e; nextBefore = next; forgettable = false;
            push(t, false); browsing = true; cur = e.size() > 1 ? 1 : 0;
        }
        else { e[e.size() - 1 - cur].text = t; if (cur + 1 < e.size()) ++cur; }
        return e[e.size() - 1 - cur].text;
    }
    std::string down() { if (!browsing || cur == 0) return ""; --cur; return e[e.size() - 1 - cur].text; }
    V stored() const { V r; for (std::size_t i = 0; i < e.size() - (browsing ? 1 : 0); ++i) if (e[i].session) r.push_back(e[i].text); return r; }
};
