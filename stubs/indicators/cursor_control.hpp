// stand-in for indicators: remembers whether the cursor is shown
#pragma once
namespace indicators {
inline bool cursor_shown = true;
inline void show_console_cursor(bool b) { cursor_shown = b; }
} // namespace indicators
