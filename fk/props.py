from common import PROPS  # noqa: F401
import props_a  # noqa: F401
import props_b  # noqa: F401
import props_c  # noqa: F401
import props_d  # noqa: F401
import props_e  # noqa: F401
import props_f  # noqa: F401
import props_g  # noqa: F401
import props_h  # noqa: F401
