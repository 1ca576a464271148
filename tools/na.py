# properties not claimed, with the reason; and extra notes per property
NA = {}
LEVEL = {}
