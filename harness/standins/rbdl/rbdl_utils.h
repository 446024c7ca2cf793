// Stand-in: nothing of this header is used by the bridge (outside of tests)
#pragma once
