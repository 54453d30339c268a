// Stand-in written for /verif: nothing of it is used.
#pragma once
