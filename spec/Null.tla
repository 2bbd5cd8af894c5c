------------------------------- MODULE Null --------------------------------
(***************************************************************************)
(* Calls without an object (C29), or with one but without something else   *)
(* they need.  Whatever changes something does nothing, questions are      *)
(* answered with nothing, and what must have something is refused with an  *)
(* error.  Nothing is allocated and no other object changes.               *)
(***************************************************************************)
EXTENDS Integers

(* refused with an error *)
Refused == {
    "tsm_screen_new(NULL, NULL, NULL)",
    "tsm_screen_resize(none, 5, 5)",
    "tsm_screen_set_margins(none, 1, 3)",
    "tsm_screen_selection_copy(none, &out)",
    "tsm_vte_new(&vte, none, write_cb, NULL, NULL, NULL)",
    "tsm_vte_set_palette(v0, solarized)",
    "tsm_vte_set_palette(v0, NULL)",
    "tsm_vte_set_custom_palette(v0, pal)",
    "tsm_vte_set_custom_palette(v0, NULL)",
    "tsm_symbol_table_new(NULL)",
    "tsm_utf8_mach_new(NULL)",
    "shl_array_new(NULL, 4, 4)",
    "shl_array_new(&a0, 0, 4)",
    "shl_array_zresize(a0, 5)",
    "shl_array_push(a0, &x)",
    "shl_pty_open(NULL, input_cb, NULL, 80, 24)",
    "shl_pty_get_fd(p0)",
    "shl_pty_get_child(p0)",
    "shl_pty_dispatch(p0)",
    "shl_pty_write(p0, x, 1)",
    "shl_pty_signal(p0, 9)",
    "shl_pty_resize(p0, 80, 24)",
    "shl_pty_bridge_dispatch(-1, 0)",
    "shl_pty_bridge_dispatch_pty(-1, p0)",
    "shl_pty_bridge_dispatch_pty(0, p0)",
    "shl_pty_bridge_add(-1, p0)",
    "shl_pty_bridge_add(0, p0)",
    "tsm_vte_new without a callback",
    "tsm_vte_new without result",
    "tsm_screen_selection_copy without result",
    "shl_array_push of nothing"}
(* the symbols that are characters need no table *)
Ones == {
    "tsm_symbol_append(t0, 'a', 0x301) == 'a'",
    "*tsm_symbol_get(t0, &sym, &n) == 'a' && n == 1",
    "*tsm_symbol_get(t0, &sym, NULL) == 'a'",
    "tsm_utf8_mach_feed(m0, 'a') == TSM_UTF8_START"}
(* the character of no decoder is the replacement character *)
Character == {"tsm_utf8_mach_get(m0)"}

Right(call, r) == CASE call \in Refused -> r < 0
                    [] call \in Ones -> r = 1
                    [] call \in Character -> r = 65533
                    [] OTHER -> r = 0
=============================================================================
