"""All contracts."""
import c_sys, c_pos
import c_misc, c_time, c_list
import c_agent
import c_hist, c_text
