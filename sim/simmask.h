#define F_CLOCK   0x200
