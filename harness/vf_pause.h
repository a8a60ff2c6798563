#pragma once
void vf_ctl_pause(void);
#define __builtin_ia32_pause vf_ctl_pause
